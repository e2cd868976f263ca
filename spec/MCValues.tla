------------------------------ MODULE MCValues ------------------------------
(* The order of numbers is that of integers; and the way mixed comparisons are computed on machine integers, with the conversions   *)
(* of the language, gives that order for every pair of types and values (word sizes scaled down: int has IntBits bits).             *)
EXTENDS Values, TLC
CONSTANTS IntBits, Widths
Pow2(n) == 2 ^ n
Abs(n) == IF n < 0 THEN -n ELSE n
Enc(n) == [neg |-> n < 0, mag |-> <<Abs(n) \div 16, Abs(n) % 16>>]
ASSUME \A a, b \in -100..100 : Lt(Enc(a), Enc(b)) = (a < b) /\ Eq(Enc(a), Enc(b)) = (a = b) /\ Le(Enc(a), Enc(b)) = (a <= b)
ASSUME \A a, b \in -20..20 : LET r == Comparisons(Enc(a), Enc(b)) IN r[1] + r[2] = 1 /\ r[3] + r[6] = 1 /\ r[4] + r[5] = 1 /\ r[1] + r[3] + r[4] = 1

\* ---- machine integers
Types == [signed : BOOLEAN, w : Widths]
Vals(t) == IF t.signed THEN -Pow2(t.w - 1)..(Pow2(t.w - 1) - 1) ELSE 0..(Pow2(t.w) - 1)
Conv(v, t) == LET m == v % Pow2(t.w) IN IF t.signed /\ m >= Pow2(t.w - 1) THEN m - Pow2(t.w) ELSE m
Promote(t) == IF t.w < IntBits THEN [signed |-> TRUE, w |-> IntBits] ELSE t
Common(a, b) == LET p == Promote(a)  q == Promote(b) IN
  IF p.signed = q.signed THEN (IF p.w >= q.w THEN p ELSE q)
  ELSE LET s == IF p.signed THEN p ELSE q  u == IF p.signed THEN q ELSE p IN IF u.w >= s.w THEN u ELSE s
MEq(v, t, z, u) == LET c == Common(t, u) IN Conv(v, c) = Conv(z, c)      \* v == z in the language
MLt(v, t, z, u) == LET c == Common(t, u) IN Conv(v, c) < Conv(z, c)
Un(t) == [t EXCEPT !.signed = FALSE]
CmpEq(v, t, z, u) == IF t.signed = u.signed THEN MEq(v, t, z, u)
                     ELSE IF t.signed THEN v >= 0 /\ MEq(Conv(v, Un(t)), Un(t), z, u) ELSE z >= 0 /\ MEq(v, t, Conv(z, Un(u)), Un(u))
CmpLess(v, t, z, u) == IF t.signed = u.signed THEN MLt(v, t, z, u)
                       ELSE IF t.signed THEN v < 0 \/ MLt(Conv(v, Un(t)), Un(t), z, u) ELSE z >= 0 /\ MLt(v, t, Conv(z, Un(u)), Un(u))
VARIABLES t, u
Init == t \in Types /\ u \in Types
Next == UNCHANGED <<t, u>>
Exact == \A v \in Vals(t) : \A z \in Vals(u) : CmpEq(v, t, z, u) = (v = z) /\ CmpLess(v, t, z, u) = (v < z)
\* the built-in comparison is not exact: why the helpers exist
Needed == ~(t.signed # u.signed /\ t.w = u.w /\ t.w >= IntBits) \/ \E v \in Vals(t) : \E z \in Vals(u) : MLt(v, t, z, u) # (v < z)
Spec == Init /\ [][Next]_<<t, u>>
=============================================================================
