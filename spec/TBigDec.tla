------------------------------- MODULE TBigDec ------------------------------
(* Recorded histories of BigFloat operations are behaviours of BigDec. *)
EXTENDS BigDec, Json, IOUtils, TLC

Hist == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES h, i
vars == <<regs, h, i>>
E == Hist[h][i]
Init == h \in 1..Len(Hist) /\ i = 1 /\ BigDecInit

Canon(t) == IsDecimal(t) /\ RenderDec(ParseDec(t)) = t
Out(d) == RenderDec(regs'[d]) = E.out
Res == IF Canon(E.out) THEN ParseDec(E.out) ELSE Dec0

Step ==
  \/ E.op = "set" /\ SetText(E.d, E.text, E.ex) /\ (~E.ex => Out(E.d))
  \/ E.op = "add" /\ Add(E.d, E.a, E.b) /\ Out(E.d)
  \/ E.op = "sub" /\ Sub(E.d, E.a, E.b) /\ Out(E.d)
  \/ E.op = "mul" /\ Mul(E.d, E.a, E.b) /\ Out(E.d)
  \/ E.op = "sqr" /\ Sqr(E.d, E.a) /\ Out(E.d)
  \/ E.op = "abs" /\ Abs(E.d, E.a) /\ Out(E.d)
  \/ E.op = "copy" /\ Copy(E.d, E.a) /\ Out(E.d)
  \/ E.op = "move" /\ Canon(E.src) /\ Move(E.d, E.a, ParseDec(E.src)) /\ Out(E.d)
  \/ E.op = "pow" /\ Pow(E.d, E.a, E.e, E.ex) /\ (~E.ex => Out(E.d))
  \/ E.op = "div" /\ (~E.ex => Canon(E.out)) /\ Div(E.d, E.a, E.b, E.ex, Res)
  \/ E.op = "sqrt" /\ (~E.ex => Canon(E.out)) /\ Sqrt(E.d, E.a, E.ex, Res)
  \/ E.op = "cmp" /\ CmpOk(E.a, E.b, E) /\ Keep
  \/ E.op = "dump" /\ Keep /\ \A k \in 1..Regs : RenderDec(regs[k]) = E.regs[k]

Next == \/ i <= Len(Hist[h]) /\ Step /\ i' = i + 1 /\ UNCHANGED h
        \/ i > Len(Hist[h]) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
