------------------------------ MODULE MCBigInt ------------------------------
(* Exhaustive check of the arithmetic definitions against TLC's integers, and of the machine's laws. *)
EXTENDS BigInt, TLC, Json

CONSTANTS NegLo, Hi, Emit

Lo == -NegLo

VARIABLES x, y, last             \* two operands, all pairs of them; last operation
vars == <<regs, x, y, last>>

Nums == Lo..Hi
Init == x \in Nums /\ y \in Nums /\ last = "none" /\ regs = [k \in 1..Regs |-> CASE k = 1 -> FromInt(x) [] k = 2 -> FromInt(y) [] OTHER -> Int0]

Tr(op) == last' = op /\ UNCHANGED <<x, y>>
First == last = "none"
Quot(a, b) == CHOOSE q \in {FromInt(v) : v \in (-Hi)..Hi} : IsQuotient(a, b, q)
Root(a) == CHOOSE s \in {FromInt(v) : v \in 0..Hi} : IsFloorSqrt(a, s)
Next ==
  \/ First /\ Add(3, 1, 2) /\ Tr("add")
  \/ First /\ Sub(3, 1, 2) /\ Tr("sub")
  \/ First /\ Mul(3, 1, 2) /\ Tr("mul")
  \/ First /\ Sqr(3, 1) /\ Tr("sqr")
  \/ First /\ Abs(3, 1) /\ Tr("abs")
  \/ First /\ y # 0 /\ Div(3, 1, 2, FALSE, Quot(regs[1], regs[2])) /\ Tr("div")
  \/ First /\ y # 0 /\ Mod(3, 1, 2, FALSE, Quot(regs[1], regs[2])) /\ Tr("mod")
  \/ First /\ y = 0 /\ Div(3, 1, 2, TRUE, Int0) /\ Tr("div0")
  \/ First /\ x >= 0 /\ y = Lo /\ Sqrt(3, 1, FALSE, Root(regs[1])) /\ Tr("sqrt")
  \/ First /\ x < 0 /\ y = Lo /\ Sqrt(3, 1, TRUE, Int0) /\ Tr("sqrtneg")
  \/ First /\ y \in 0..4 /\ x \in (-30)..30 /\ Pow(3, 1, y, FALSE) /\ Tr("pow")
  \/ First /\ y < 0 /\ Pow(3, 1, y, TRUE) /\ Tr("powneg")
Spec == Init /\ [][Next]_vars

AbsV(v) == IF v < 0 THEN -v ELSE v
SgnV(v) == IF v < 0 THEN -1 ELSE 1
TDiv(a, b) == SgnV(a) * SgnV(b) * (AbsV(a) \div AbsV(b))
R == ToInt(regs[3])
Agrees ==
  /\ last = "add" => R = x + y
  /\ last = "sub" => R = x - y
  /\ last = "mul" => R = x * y
  /\ last = "sqr" => R = x * x
  /\ last = "abs" => R = AbsV(x)
  /\ last = "div" => R = TDiv(x, y)
  /\ last = "mod" => R = x - TDiv(x, y) * y /\ AbsV(R) < AbsV(y) /\ (R = 0 \/ SgnV(R) = SgnV(x))
  /\ last = "sqrt" => R * R <= x /\ (R + 1) * (R + 1) > x
  /\ last = "pow" => R = (IF y = 0 THEN 1 ELSE x ^ y)
Order == last = "none" =>
  LET c == ICmp(regs[1], regs[2]) IN c = (IF x < y THEN -1 ELSE IF x > y THEN 1 ELSE 0)
Text == /\ ToInt(ParseInt(RenderInt(regs[1]))) = x
        /\ IsCanonical(RenderInt(regs[3]))
        /\ ParseInt(RenderInt(regs[3])) = regs[3]
\* all signed digit texts of up to 3 characters: canonical form is unique
Alphabet == {43, 45, 48, 49, 57, 32}
Texts == UNION {[1..n -> Alphabet] : n \in 0..3}
TextLaws == (last = "none" /\ x = Lo /\ y = Lo) =>
  /\ \A t \in Texts : IsNumber(t) => IsInt(ParseInt(t)) /\ (IsCanonical(t) <=> RenderInt(ParseInt(t)) = t)
  /\ ~IsNumber(<<>>) /\ ~IsNumber(<<43>>) /\ ~IsNumber(<<45>>) /\ ~IsNumber(<<43, 45, 49>>)
\* one implementation test per transition
EmitTest == IF Emit THEN PrintT("T:" \o ToJson([x |-> x, y |-> y, op |-> last'])) ELSE TRUE
=============================================================================
