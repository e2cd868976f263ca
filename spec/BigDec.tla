------------------------------- MODULE BigDec -------------------------------
(* A machine with a few registers holding big decimals; one action per operation of Caitlyn's BigFloat. *)
(* A decimal is an unscaled integer u and a scale s, denoting u / 10^s, in shortest form.                 *)
EXTENDS BigNat

CONSTANT Regs
VARIABLE regs

Zeros(n) == [k \in 1..n |-> 48]
Digits10(d) == [k \in 1..Len(d) |-> d[k] + 48]
TrailingZeros(d) == FoldLeft(LAMBDA acc, k : IF acc = k - 1 /\ d[Len(d) - k + 1] = 0 THEN k ELSE acc, 0, Up(Len(d)))

\* multiply by 10^k: on the decimal text
Shift(x, k) == IF x = Int0 \/ k = 0 THEN x
               ELSE LET t == Digits10(MagDigits(x.m)) \o Zeros(k) IN [n |-> x.n, m |-> DigitsToMag(t, 1, Len(t))]

\* shortest form of u / 10^s
Dec(u, s) ==
  IF u = Int0 THEN [u |-> Int0, s |-> 0]
  ELSE LET d == MagDigits(u.m)
           z0 == TrailingZeros(d)
           z == IF z0 < s THEN z0 ELSE s
           t == Digits10(d)
       IN IF z = 0 THEN [u |-> u, s |-> s] ELSE [u |-> [n |-> u.n, m |-> DigitsToMag(t, 1, Len(t) - z)], s |-> s - z]

Dec0 == [u |-> Int0, s |-> 0]
IsDec(x) == IsInt(x.u) /\ x.s \in Nat /\ x = Dec(x.u, x.s)

\* x as a multiple of 10^-s, for s at least the scale of x
Unscaled(x, s) == Shift(x.u, s - x.s)

DAdd(a, b) == LET s == Max2(a.s, b.s) IN Dec(IAdd(Unscaled(a, s), Unscaled(b, s)), s)
DSub(a, b) == LET s == Max2(a.s, b.s) IN Dec(ISub(Unscaled(a, s), Unscaled(b, s)), s)
DMul(a, b) == Dec(IMul(a.u, b.u), a.s + b.s)
DAbs(a) == [a EXCEPT !.u = IAbs(a.u)]
DPow(a, e) == Dec(IPow(a.u, e), a.s * e)
DCmp(a, b) == LET s == Max2(a.s, b.s) IN ICmp(Unscaled(a, s), Unscaled(b, s))

\* r is a/b truncated to t fractional digits, t being the surplus of fractional digits of a
QScale(a, b) == Max2(a.s - b.s, 0)
IsDQuotient(a, b, r) ==
  LET t == QScale(a, b)
  IN r.s <= t /\ IsQuotient(Shift(a.u, Max2(b.s - a.s, 0)), b.u, Unscaled(r, t))
\* r is the root of a truncated to the number of fractional digits of a
IsDRoot(a, r) == r.s <= a.s /\ IsFloorSqrt(Shift(a.u, a.s), Unscaled(r, a.s))

-----------------------------------------------------------------------------
(* Decimal text *)
Points(t) == {k \in 1..Len(t) : t[k] = 46}
PointAt(t) == IF Points(t) = {} THEN Len(t) + 1 ELSE CHOOSE k \in Points(t) : TRUE
IsDecimal(t) ==
  /\ \E k \in 1..Len(t) : IsAsciiDigit(t[k])
  /\ LET p == Points(t) IN p = {} \/ \E k \in p : p = {k}
  /\ \A k \in 1..Len(t) : IsAsciiDigit(t[k]) \/ t[k] = 46 \/ (k = 1 /\ t[k] \in {43, 45})
\* a point alone is neither required nor forbidden
Odd(t) == t # <<>> /\ \A k \in 1..Len(t) : t[k] = 46 \/ (k = 1 /\ t[k] \in {43, 45})
ParseDec(t) ==
  LET p == PointAt(t)
      a == SubSeq(t, SignLen(t) + 1, p - 1) \o SubSeq(t, p + 1, Len(t))
  IN Dec(MkInt(t[1] = 45, DigitsToMag(a, 1, Len(a))), Max2(Len(t) - p, 0))

RenderDec(x) ==
  LET d0 == RenderMag(x.u.m)
      d == Zeros(Max2(x.s + 1 - Len(d0), 0)) \o d0
      n == Len(d) - x.s
  IN (IF x.u.n THEN <<45>> ELSE <<>>) \o SubSeq(d, 1, n) \o (IF x.s = 0 THEN <<>> ELSE <<46>> \o SubSeq(d, n + 1, Len(d)))

-----------------------------------------------------------------------------
BigDecInit == regs = [k \in 1..Regs |-> Dec0]
Put(d, v) == regs' = [regs EXCEPT ![d] = v]
Keep == UNCHANGED regs

SetText(d, t, refused) ==
  IF IsDecimal(t) THEN ~refused /\ Put(d, ParseDec(t)) ELSE IF refused THEN Keep ELSE Odd(t) /\ Put(d, Dec0)
Add(d, a, b) == Put(d, DAdd(regs[a], regs[b]))
Sub(d, a, b) == Put(d, DSub(regs[a], regs[b]))
Mul(d, a, b) == Put(d, DMul(regs[a], regs[b]))
Sqr(d, a) == Put(d, DMul(regs[a], regs[a]))
Abs(d, a) == Put(d, DAbs(regs[a]))
Copy(d, a) == Put(d, regs[a])
\* what a moved-from number holds is left open
Move(d, a, left) == regs' = IF d = a THEN regs ELSE [regs EXCEPT ![d] = regs[a], ![a] = left]
Pow(d, a, e, refused) == IF e < 0 THEN refused /\ Keep ELSE ~refused /\ Put(d, DPow(regs[a], e))
Div(d, a, b, refused, q) ==
  IF regs[b] = Dec0 THEN refused /\ Keep ELSE ~refused /\ IsDQuotient(regs[a], regs[b], q) /\ Put(d, q)
Sqrt(d, a, refused, r) ==
  IF regs[a].u.n THEN refused /\ Keep ELSE ~refused /\ IsDRoot(regs[a], r) /\ Put(d, r)
CmpOk(a, b, r) == LET c == DCmp(regs[a], regs[b]) IN
  /\ r.lt = (c < 0) /\ r.le = (c <= 0) /\ r.gt = (c > 0) /\ r.ge = (c >= 0) /\ r.eq = (c = 0) /\ r.ne = (c # 0)

TypeOK == \A k \in 1..Regs : IsDec(regs[k])
=============================================================================
