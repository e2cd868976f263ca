------------------------------ MODULE MCBigDec ------------------------------
(* Exhaustive check of decimal arithmetic against rationals with a fixed denominator; emits one test per transition. *)
EXTENDS BigDec, TLC, Json

CONSTANTS Rich, Emit
VARIABLES x, y, last             \* operands in hundredths
vars == <<regs, x, y, last>>

Mags == {0, 1, 2, 3, 5, 9, 10, 25, 50, 99, 100, 101, 300, 1005} \cup (IF Rich THEN {4, 7, 11, 15, 19, 20, 40, 90, 95, 105, 110, 144, 199, 200, 225, 990, 995, 999, 1000, 1234} ELSE {})
Nums == Mags \cup {-v : v \in Mags}
D(v) == Dec(FromInt(v), 2)
Init == x \in Nums /\ y \in Nums /\ last = "none" /\ regs = [k \in 1..Regs |-> CASE k = 1 -> D(x) [] k = 2 -> D(y) [] OTHER -> Dec0]
Tr(op) == last' = op /\ UNCHANGED <<x, y>>
First == last = "none"
AbsV(v) == IF v < 0 THEN -v ELSE v
SgnV(v) == IF v < 0 THEN -1 ELSE 1
TDiv(a, b) == SgnV(a) * SgnV(b) * (AbsV(a) \div AbsV(b))
Scale(v) == IF v % 100 = 0 THEN 0 ELSE IF v % 10 = 0 THEN 1 ELSE 2
QS(a, b) == IF Scale(a) > Scale(b) THEN Scale(a) - Scale(b) ELSE 0
Quot(a, b) == Dec(FromInt(TDiv(a * 10 ^ QS(a, b), b)), QS(a, b))
Root(a) == LET n == (a * 10 ^ (2 * Scale(a))) \div 100 IN CHOOSE r \in 0..1300 : r * r <= n /\ (r + 1) * (r + 1) > n
Next ==
  \/ First /\ Add(3, 1, 2) /\ Tr("add")
  \/ First /\ Sub(3, 1, 2) /\ Tr("sub")
  \/ First /\ Mul(3, 1, 2) /\ Tr("mul")
  \/ First /\ y = x /\ Sqr(3, 1) /\ Tr("sqr")
  \/ First /\ y = x /\ Abs(3, 1) /\ Tr("abs")
  \/ First /\ y # 0 /\ Div(3, 1, 2, FALSE, Quot(x, y)) /\ Tr("div")
  \/ First /\ y = 0 /\ Div(3, 1, 2, TRUE, Dec0) /\ Tr("div0")
  \/ First /\ y = x /\ x >= 0 /\ Sqrt(3, 1, FALSE, Dec(FromInt(Root(x)), Scale(x))) /\ Tr("sqrt")
  \/ First /\ y = x /\ x < 0 /\ Sqrt(3, 1, TRUE, Dec0) /\ Tr("sqrtneg")
  \/ First /\ y \in {0, 1, 2, 3} /\ AbsV(x) < 105 /\ Pow(3, 1, y, FALSE) /\ Tr("pow")
  \/ First /\ y \in {-1, -5} /\ Pow(3, 1, y, TRUE) /\ Tr("powneg")
Spec == Init /\ [][Next]_vars

\* the value of r times 10^k
Val(r, k) == ToInt(Unscaled(r, k))
R == regs[3]
Agrees ==
  /\ last = "add" => Val(R, 2) = x + y
  /\ last = "sub" => Val(R, 2) = x - y
  /\ last = "mul" => Val(R, 4) = x * y
  /\ last = "sqr" => Val(R, 4) = x * x
  /\ last = "abs" => Val(R, 2) = AbsV(x)
  /\ last = "pow" => Val(R, 6) = (CASE y = 0 -> 1000000 [] y = 1 -> x * 10000 [] y = 2 -> x * x * 100 [] OTHER -> x * x * x)
Order == last = "none" => DCmp(regs[1], regs[2]) = (IF x < y THEN -1 ELSE IF x > y THEN 1 ELSE 0)
Text == /\ ParseDec(RenderDec(regs[1])) = regs[1]
        /\ ParseDec(RenderDec(regs[3])) = regs[3]
        /\ RenderDec(regs[3])[1] # 46
        /\ Val(regs[1], 2) = x
Alphabet == {43, 45, 46, 48, 49, 97}
Texts == UNION {[1..n -> Alphabet] : n \in 0..4}
TextLaws == (last = "none" /\ x = 0 /\ y = 0) =>
  \A t \in Texts : IsDecimal(t) => IsDec(ParseDec(t)) /\ ParseDec(RenderDec(ParseDec(t))) = ParseDec(t)
EmitTest == IF Emit THEN PrintT("T:" \o ToJson([x |-> RenderDec(regs[1]), y |-> RenderDec(regs[2]), e |-> y, op |-> last'])) ELSE TRUE
=============================================================================
