------------------------------- MODULE BigNat -------------------------------
(* Integers of any size as sign and magnitude; a magnitude is a little-endian sequence of limbs without *)
(* a leading zero limb.  The limb base is a constant so that the same definitions are model checked      *)
(* exhaustively with base 10 against TLC's own integers and used with base 1000 on recorded traces.      *)
EXTENDS Integers, Sequences, SequencesExt

CONSTANT LimbDigits              \* decimal digits per limb

Base == 10 ^ LimbDigits

Max2(x, y) == IF x >= y THEN x ELSE y
Up(n) == [k \in 1..n |-> k]

At(s, k) == IF k <= Len(s) THEN s[k] ELSE 0

\* without leading zero limbs
Norm(s) == LET top == FoldLeft(LAMBDA acc, k : IF s[k] # 0 THEN k ELSE acc, 0, Up(Len(s)))
           IN SubSeq(s, 1, top)

-----------------------------------------------------------------------------
(* Naturals *)

NAdd(a, b) ==
  LET step(acc, k) == LET t == At(a, k) + At(b, k) + acc.c
                      IN [c |-> t \div Base, s |-> Append(acc.s, t % Base)]
      r == FoldLeft(step, [c |-> 0, s |-> <<>>], Up(Max2(Len(a), Len(b))))
  IN IF r.c = 0 THEN r.s ELSE Append(r.s, r.c)

\* a >= b
NSub(a, b) ==
  LET step(acc, k) == LET t == At(a, k) - At(b, k) - acc.c
                      IN IF t < 0 THEN [c |-> 1, s |-> Append(acc.s, t + Base)]
                                  ELSE [c |-> 0, s |-> Append(acc.s, t)]
  IN Norm(FoldLeft(step, [c |-> 0, s |-> <<>>], Up(Len(a))).s)

NMul(a, b) ==
  IF a = <<>> \/ b = <<>> THEN <<>> ELSE
  LET m == Len(a)
      n == Len(b)
      column(k) == LET lo == Max2(1, k + 1 - n)
                       hi == IF k < m THEN k ELSE m
                   IN FoldLeft(LAMBDA acc, i : acc + a[lo + i - 1] * b[k + 2 - lo - i], 0, Up(hi - lo + 1))
      step(acc, k) == LET t == column(k) + acc.c
                      IN [c |-> t \div Base, s |-> Append(acc.s, t % Base)]
      r == FoldLeft(step, [c |-> 0, s |-> <<>>], Up(m + n - 1))
      hi2 == r.c \div Base
  IN Norm(r.s \o <<r.c % Base, hi2>>)

\* -1, 0, 1
NCmp(a, b) ==
  IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1)
  ELSE FoldLeft(LAMBDA acc, k : IF a[k] < b[k] THEN -1 ELSE IF a[k] > b[k] THEN 1 ELSE acc, 0, Up(Len(a)))

-----------------------------------------------------------------------------
(* Integers *)

Int0 == [n |-> FALSE, m |-> <<>>]
MkInt(neg, mag) == [n |-> neg /\ mag # <<>>, m |-> mag]
IsInt(x) == /\ x.m = <<>> => ~x.n
            /\ x.m # <<>> => x.m[Len(x.m)] # 0
            /\ \A k \in 1..Len(x.m) : x.m[k] \in 0..(Base - 1)

INeg(a) == MkInt(~a.n, a.m)
IAbs(a) == [n |-> FALSE, m |-> a.m]
IAdd(a, b) == IF a.n = b.n THEN [n |-> a.n, m |-> NAdd(a.m, b.m)]
              ELSE IF NCmp(a.m, b.m) >= 0 THEN MkInt(a.n, NSub(a.m, b.m))
              ELSE MkInt(b.n, NSub(b.m, a.m))
ISub(a, b) == IAdd(a, INeg(b))
IMul(a, b) == MkInt(a.n # b.n, NMul(a.m, b.m))
ICmp(a, b) == IF a.n # b.n THEN (IF a.n THEN -1 ELSE 1)
              ELSE IF a.n THEN NCmp(b.m, a.m) ELSE NCmp(a.m, b.m)

One == [n |-> FALSE, m |-> <<1>>]

IPow(a, e) ==   \* square and multiply over the bits of e
  LET RECURSIVE P(_, _)
      P(b, k) == IF k = 0 THEN One
                 ELSE IF k % 2 = 0 THEN LET h == P(b, k \div 2) IN IMul(h, h)
                 ELSE IMul(b, P(b, k - 1))
  IN P(a, e)

\* q is the quotient truncated toward zero, r the remainder: the two laws determine them uniquely
IsQuotient(a, b, q) ==
  LET r == ISub(a, IMul(q, b)) IN NCmp(r.m, b.m) < 0 /\ (r.m # <<>> => r.n = a.n)
IsRemainder(a, b, q, r) == IsQuotient(a, b, q) /\ r = ISub(a, IMul(q, b))
IsFloorSqrt(a, s) ==
  /\ ~s.n
  /\ ICmp(IMul(s, s), a) <= 0
  /\ LET t == IAdd(s, One) IN ICmp(IMul(t, t), a) > 0

-----------------------------------------------------------------------------
(* Decimal text: sequences of code points *)

IsAsciiDigit(c) == c \in 48..57
SignLen(t) == IF t # <<>> /\ (t[1] = 45 \/ t[1] = 43) THEN 1 ELSE 0
IsNumber(t) == /\ Len(t) > SignLen(t)
               /\ \A k \in (SignLen(t) + 1)..Len(t) : IsAsciiDigit(t[k])

\* magnitude of the digit characters t[lo..hi]
DigitsToMag(t, lo, hi) ==
  LET n == hi - lo + 1
      limbs == (n + LimbDigits - 1) \div LimbDigits
      limb(k) == LET e == hi - (k - 1) * LimbDigits             \* last digit of the limb
                     b == Max2(lo, e - LimbDigits + 1)
                 IN FoldLeft(LAMBDA acc, j : acc * 10 + (t[b + j - 1] - 48), 0, Up(e - b + 1))
  IN Norm([k \in 1..limbs |-> limb(k)])

ParseInt(t) == MkInt(t[1] = 45, DigitsToMag(t, SignLen(t) + 1, Len(t)))

\* decimal digits, most significant first, no leading zeros
MagDigits(m) ==
  LET digit(k) == (m[((k - 1) \div LimbDigits) + 1] \div (10 ^ ((k - 1) % LimbDigits))) % 10
  IN Reverse(Norm([k \in 1..(Len(m) * LimbDigits) |-> digit(k)]))

RenderMag(m) == IF m = <<>> THEN <<48>> ELSE [k \in 1..Len(MagDigits(m)) |-> MagDigits(m)[k] + 48]
RenderInt(x) == (IF x.n THEN <<45>> ELSE <<>>) \o RenderMag(x.m)

\* canonical decimal text of an integer
IsCanonical(t) == /\ t # <<>>
                  /\ t[1] # 43
                  /\ IsNumber(t)
                  /\ LET f == t[SignLen(t) + 1] IN f = 48 => (Len(t) = 1)

\* value of a TLC integer, and back (small ones only)
FromInt(v) == LET RECURSIVE L(_)
                  L(x) == IF x = 0 THEN <<>> ELSE <<x % Base>> \o L(x \div Base)
              IN MkInt(v < 0, L(IF v < 0 THEN -v ELSE v))
ToInt(x) == LET v == FoldLeft(LAMBDA acc, k : acc + x.m[k] * Base ^ (k - 1), 0, Up(Len(x.m)))
            IN IF x.n THEN -v ELSE v
=============================================================================
