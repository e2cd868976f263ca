----------------------------- MODULE MCAsserts ------------------------------
(* Tests made of assertions: a test ends at its first assertion that does not hold, and only there; laws of the conditions. *)
EXTENDS Asserts, FiniteSets, TLC, Json
CONSTANTS MaxLen, Emit
N(n) == [k |-> "num", n |-> n, s |-> <<>>]
Tx(s) == [k |-> "text", n |-> 0, s |-> s]
Nan == [k |-> "nan", n |-> 0, s |-> <<>>]
Null == [k |-> "null", n |-> 0, s |-> <<>>]
Nums == {N(-1), N(0), N(1), Nan}
Texts == {Tx(<<>>), Tx(<<1>>), Tx(<<2>>), Tx(<<1, 1>>), Tx(<<1, 2>>)}
ASSUME \A X \in {Nums, Texts} : \A x, y \in X :
  LET H(a) == Holds(a, "one", x, y)  G(a) == Holds(a, "one", y, x)  nan == Nan \in {x, y} IN
  /\ H("eq") = ~H("ne") /\ H("eq") = G("eq") /\ H("lt") = G("gt") /\ H("le") = G("ge") /\ H("eqp") = H("eq")
  /\ (~nan => H("lt") = ~H("ge") /\ H("gt") = ~H("le") /\ Cardinality({a \in {"lt", "eq", "gt"} : H(a)}) = 1)
  /\ (nan => {a \in Comparisons \ {"streq"} : H(a)} = {"ne"})
  /\ (H("le") = (H("lt") \/ H("eq"))) /\ \A f \in {"one", "not", "or", "and", "same", "less", "choose", "comma"} : Holds("true", f, x, y) = ~Holds("false", f, x, y)
ASSUME \A x, y \in Texts \cup {Null} : Holds("streq", "one", x, y) = (x = y)
ASSUME /\ Names(<<1, 2, 3>>, <<<<1>>, <<3>>>>) /\ ~Names(<<1, 2, 3>>, <<<<3>>, <<1>>>>) /\ ~Names(<<1, 2>>, <<<<1>>, <<1>>>>) /\ Names(<<>>, <<<<>>, <<>>>>)
VARIABLES body, pc, failed
vars == <<body, pc, failed>>
Asserts == {[a |-> a, f |-> "one", x |-> N(x), y |-> N(y)] : a \in Comparisons \ {"eqp", "streq"}, x \in 0..1, y \in 0..1}
           \cup {[a |-> a, f |-> f, x |-> N(x), y |-> N(y)] : a \in {"true", "false"}, f \in {"one", "not", "or", "and", "same", "less", "choose", "comma"}, x \in 0..1, y \in 0..1}
           \cup {[a |-> a, f |-> "one", x |-> N(0), y |-> N(0)] : a \in {"pass", "fail", "message"}}
Init == body = <<>> /\ pc = 1 /\ failed = FALSE
\* the test runs its next assertion, whichever it is
Next == /\ ~failed /\ pc <= MaxLen /\ \E z \in Asserts : body' = Append(body, z) /\ failed' = ~Holds(z.a, z.f, z.x, z.y) /\ pc' = pc + 1
Spec == Init /\ [][Next]_vars
View == <<body, failed>>
Ends == failed = (\E j \in DOMAIN body : ~Holds(body[j].a, body[j].f, body[j].x, body[j].y)) /\ \A j \in 1..(Len(body) - 1) : Holds(body[j].a, body[j].f, body[j].x, body[j].y)
EmitTest == IF Emit THEN PrintT("T:" \o ToJson(body')) ELSE TRUE
=============================================================================
