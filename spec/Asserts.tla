------------------------------ MODULE Asserts -------------------------------
(* Assertions of a test.  Operands: [k, n, s]: k = "num" (n orders numbers), "nan", "text" (s: bytes), "null" (no C string).          *)
EXTENDS Integers, Sequences
RECURSIVE LessText(_, _)
LessText(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE ELSE a[1] < b[1] \/ (a[1] = b[1] /\ LessText(Tail(a), Tail(b)))
Eq(x, y) == x.k = y.k /\ x.k # "nan" /\ x.n = y.n /\ x.s = y.s
Lt(x, y) == x.k = y.k /\ ((x.k = "num" /\ x.n < y.n) \/ (x.k = "text" /\ LessText(x.s, y.s)))
True(x) == x.k = "num" /\ x.n # 0                 \* as a condition (numbers: zero is false)
Comparisons == {"eq", "ne", "lt", "le", "gt", "ge", "eqp", "streq"}
\* forms of a condition over two operands
Cond(f, x, y) == CASE f = "one" -> True(x) [] f = "not" -> ~True(x) [] f = "or" -> True(x) \/ True(y) [] f = "and" -> True(x) /\ True(y)
                   [] f = "same" -> Eq(x, y) [] f = "less" -> Lt(x, y) [] f = "choose" -> IF True(x) THEN True(y) ELSE ~True(y)
                   [] f = "comma" -> True(y)
Second(f, x) == IF f \in {"one", "not"} \/ (f = "or" /\ True(x)) \/ (f = "and" /\ ~True(x)) THEN 0 ELSE 1   \* evaluations of y
Holds(a, f, x, y) ==
  CASE a \in {"eq", "eqp", "streq"} -> Eq(x, y) [] a = "ne" -> ~Eq(x, y) [] a = "lt" -> Lt(x, y) [] a = "gt" -> Lt(y, x)
    [] a = "le" -> Lt(x, y) \/ Eq(x, y) [] a = "ge" -> Lt(y, x) \/ Eq(x, y)
    [] a = "true" -> Cond(f, x, y) [] a = "false" -> ~Cond(f, x, y)
    [] a = "pass" -> TRUE [] a \in {"fail", "message"} -> FALSE
Evals(a, f, x) == IF a \in Comparisons THEN <<1, 1>> ELSE IF a \in {"true", "false"} THEN <<1, Second(f, x)>> ELSE <<0, 0>>

\* the pieces of q in this order, not overlapping, are in text t
RECURSIVE FindFrom(_, _, _)
FindFrom(t, p, k) == IF k + Len(p) - 1 > Len(t) THEN 0 ELSE IF SubSeq(t, k, k + Len(p) - 1) = p THEN k ELSE FindFrom(t, p, k + 1)
RECURSIVE Names(_, _)
Names(t, q) == q = <<>> \/ LET k == FindFrom(t, q[1], 1) IN k # 0 /\ Names(SubSeq(t, k + Len(q[1]), Len(t)), Tail(q))

\* what was asserted of the two values, and what is shown of them instead
Sign(a) == CASE a \in {"eq", "eqp", "streq"} -> <<61, 61>> [] a = "ne" -> <<33, 61>> [] a = "lt" -> <<60>> [] a = "le" -> <<60, 61>> [] a = "gt" -> <<62>> [] a = "ge" -> <<62, 61>>
Opposite(a) == CASE a \in {"eq", "eqp", "streq"} -> "ne" [] a = "ne" -> "eq" [] a = "lt" -> "ge" [] a = "le" -> "gt" [] a = "gt" -> "le" [] a = "ge" -> "lt"
Spaced(t) == <<32>> \o t \o <<32>>
Pieces(a, q) == IF a \in Comparisons THEN <<q[1], Spaced(Sign(a)), q[2], q[3], Spaced(Sign(Opposite(a))), q[4]>> ELSE q
\* one assertion as it was seen: e.ex/e.std (what was thrown), e.after (the test went on), e.n1, e.n2 (evaluations), e.what, e.q (what a failure must name)
Good(e) ==
  IF Holds(e.a, e.f, e.x, e.y)
  THEN ~e.ex /\ e.after /\ <<e.n1, e.n2>> = Evals(e.a, e.f, e.x)
  ELSE e.ex /\ e.std /\ ~e.after /\ Names(e.what, Pieces(e.a, e.q)) /\ (e.a \in Comparisons => e.n1 >= 1 /\ e.n2 >= 1)
=============================================================================
