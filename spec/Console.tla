------------------------------ MODULE Console -------------------------------
(* Standard output and error and the input read line by line, as sequences of bytes.                                              *)
(* input: what was given and not read yet; shut: nothing more will be given.                                                      *)
EXTENDS Integers, Sequences
C0 == [out |-> <<>>, err |-> <<>>, input |-> <<>>, shut |-> FALSE]
Nl == 10
RECURSIVE LineEnd(_, _)                              \* position of the first newline, or one past the end
LineEnd(c, k) == IF k > Len(c) \/ c[k] = Nl THEN k ELSE LineEnd(c, k + 1)
HasLine(s) == LineEnd(s.input, 1) <= Len(s.input)
\* the bytes of the first character of a line
Width(b) == IF b < 128 THEN 1 ELSE IF b < 224 THEN 2 ELSE IF b < 240 THEN 3 ELSE 4
First(l) == IF l = <<>> THEN <<>> ELSE SubSeq(l, 1, Width(l[1]))
Put(s, w, x) == IF w = "out" THEN [s EXCEPT !.out = @ \o x] ELSE [s EXCEPT !.err = @ \o x]
Where(w) == IF w = "out" THEN "out" ELSE "err"       \* the log goes to standard error
Allowed(s, e) == e.op \in {"readLine", "readChar"} => s.shut \/ HasLine(s)
Effect(s, e) ==
  CASE e.op = "write" -> [s |-> Put(s, Where(e.w), e.x), res |-> <<>>]
    [] e.op = "writeLine" -> [s |-> Put(s, Where(e.w), Append(e.x, Nl)), res |-> <<>>]
    [] e.op = "newLine" -> [s |-> Put(s, Where(e.w), <<Nl>>), res |-> <<>>]
    [] e.op = "feed" -> [s |-> [s EXCEPT !.input = @ \o e.x], res |-> <<>>]
    [] e.op = "shut" -> [s |-> [s EXCEPT !.shut = TRUE], res |-> <<>>]
    [] e.op \in {"readLine", "readChar"} ->           \* e.x is the prompt
         LET k == LineEnd(s.input, 1)  l == SubSeq(s.input, 1, k - 1) IN
         [s |-> [Put(s, "out", e.x) EXCEPT !.input = SubSeq(s.input, k + 1, Len(s.input))], res |-> IF e.op = "readLine" THEN l ELSE First(l)]
=============================================================================
