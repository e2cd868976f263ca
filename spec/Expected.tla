------------------------------ MODULE Expected ------------------------------
(* Results: either a value or an error.  A result is <<1, v>> (value v) or <<0, e>> (error e); an absent variable is <<>>.         *)
(* Outcomes of calls: <<0, x>> plain value, <<1, ok, x>> result, <<2, c>> exception (1 thrown by the callback, 2 refusal,          *)
(* 3 a payload copy that failed).                                                                                                  *)
EXTENDS Integers, Sequences, FiniteSets

IsOk(r) == r[1] = 1
Held(r) == r[2]
Res(r) == <<1, r[1], r[2]>>
Val(x) == <<0, x>>
Threw == <<2, 1>>
Refused == <<2, 2>>
CopyFailed == <<2, 3>>
DefaultContent == 0

\* the callbacks of the test program, by number
F1(f, x) == CASE f = 0 -> Val(x + 1) [] f = 1 -> Val(2 * x) [] f = 2 -> Threw [] f = 3 -> Val(x)
K1(f, x) == CASE f = 0 -> <<1, 1, x + 1>> [] f = 1 -> <<1, 0, x + 10>> [] f = 2 -> Threw [] f = 3 -> <<1, 1, x>> [] f = 4 -> <<1, 0, x>>
P1(f, x) == CASE f = 0 -> Val(1) [] f = 1 -> Val(0) [] f = 2 -> Val(IF x % 2 = 0 THEN 1 ELSE 0) [] f = 3 -> Threw
IsEx(o) == o[1] = 2

\* result of a combinator: the calls made (sequences of arguments, in order) and the outcome
C(calls, out) == [calls |-> calls, out |-> out]
Untouched(r) == C(<<>>, Res(r))
OnSide(r, side, calls, out) == IF IsOk(r) = side THEN C(calls, out) ELSE Untouched(r)
Comb(op, r, f, a) ==
  LET x == Held(r) IN
  CASE op = "map"        -> OnSide(r, TRUE, <<<<x>>>>, IF IsEx(F1(f, x)) THEN Threw ELSE <<1, 1, F1(f, x)[2]>>)
    [] op = "mapError"   -> OnSide(r, FALSE, <<<<x>>>>, IF IsEx(F1(f, x)) THEN Threw ELSE <<1, 0, F1(f, x)[2]>>)
    [] op \in {"andThen", "then"}     -> OnSide(r, TRUE, <<<<x>>>>, K1(f, x))
    [] op \in {"orElse", "catchError"} -> OnSide(r, FALSE, <<<<x>>>>, K1(f, x))
    [] op = "onError"    -> OnSide(r, FALSE, <<<<x>>>>, IF IsEx(F1(f, x)) THEN Threw ELSE Res(r))
    [] op = "filter"     -> OnSide(r, TRUE, <<<<x>>>>, IF IsEx(P1(f, x)) THEN Threw ELSE IF P1(f, x)[2] = 1 THEN Res(r) ELSE <<1, 0, DefaultContent>>)
    [] op = "fold"       -> IF ~IsOk(r) THEN C(<<>>, Val(a)) ELSE C(<<<<a, x>>>>, IF f = 2 THEN Threw ELSE Val(3 * a + x))
    [] op = "inspect0"   -> C(<<<<r[1], x>>>>, IF f = 2 THEN Threw ELSE Val(IF IsOk(r) THEN x ELSE -x - 1))
    [] op = "inspect1"   -> C(<<<<r[1], x, a>>>>, IF f = 2 THEN Threw ELSE Val(IF IsOk(r) THEN x + a ELSE a - x))
    [] op = "inspect2"   -> C(<<<<r[1], x, a, f>>>>, IF f = 2 THEN Threw ELSE Val(IF IsOk(r) THEN x + a ELSE a - x))
    [] op = "customize"  -> C(<<<<r[1], x>>>>, IF f = 2 THEN Threw ELSE Val(r[1] + 2 * x))
    [] op \in {"unwrapOr", "unwrapOrDefault1"} -> C(<<>>, Val(IF IsOk(r) THEN x ELSE a))
    [] op = "unwrapOrDefault0" -> C(<<>>, Val(IF IsOk(r) THEN x ELSE DefaultContent))
    [] op = "unwrapOrElse" -> IF IsOk(r) THEN C(<<>>, Val(x)) ELSE C(<<<<x>>>>, F1(f, x))
    [] op \in {"get", "expect"} -> C(<<>>, IF IsOk(r) THEN Val(x) ELSE Refused)
    [] op \in {"getError", "expectError"} -> C(<<>>, IF IsOk(r) THEN Refused ELSE Val(x))
    [] op \in {"bool", "hasValue"} -> C(<<>>, Val(r[1]))
    [] op = "hasError" -> C(<<>>, Val(1 - r[1]))
Combs == {"map", "mapError", "andThen", "then", "orElse", "catchError", "onError", "filter", "fold", "inspect0", "inspect1", "inspect2", "customize",
          "unwrapOr", "unwrapOrDefault1", "unwrapOrDefault0", "unwrapOrElse", "get", "expect", "getError", "expectError", "bool", "hasValue", "hasError"}

\* construction and assignment: m is the sequence of variables; content of a moved-from payload is open
FromContent == {"cv", "cr", "ce", "cer", "mk", "mke", "av", "ar", "ae", "aer"}
Building(op) == op \in {"cv", "cr", "ce", "cer", "mk", "mke", "cc", "cm"}
SideOf(op) == IF op \in {"cv", "cr", "mk", "av", "ar"} THEN 1 ELSE 0
Allowed(m, e) ==
  CASE Building(e.op) /\ e.op \in FromContent -> m[e.d] = <<>>
    [] e.op \in {"cc", "cm"} -> m[e.d] = <<>> /\ m[e.s] # <<>>
    [] e.op \in {"av", "ar", "ae", "aer", "del"} -> m[e.d] # <<>>
    [] e.op \in {"ac", "am"} -> m[e.d] # <<>> /\ m[e.s] # <<>>
    [] e.op \in Combs -> m[e.s] # <<>>
\* state after success
After(m, e) ==
  CASE e.op \in FromContent -> [m EXCEPT ![e.d] = <<SideOf(e.op), e.x>>]
    [] e.op \in {"cc", "ac", "cm", "am"} -> [m EXCEPT ![e.d] = m[e.s]]
    [] e.op = "del" -> [m EXCEPT ![e.d] = <<>>]
    [] OTHER -> m
\* the variable whose content is open afterwards (0: none)
MovedFrom(e) == IF e.op \in {"cm", "am"} /\ e.d # e.s THEN e.s ELSE 0
=============================================================================
