------------------------------ MODULE TBigInt -------------------------------
(* Recorded histories of BigInteger operations are behaviours of BigInt. *)
EXTENDS BigInt, Json, IOUtils, TLC

Hist == ndJsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES h, i
vars == <<regs, h, i>>

E == Hist[h][i]
Out(d) == RenderInt(regs'[d]) = E.out
Canon(t) == IsCanonical(t)

Init == h \in 1..Len(Hist) /\ i = 1 /\ BigIntInit

\* a result is read through its canonical text only
Res == IF Canon(E.out) THEN ParseInt(E.out) ELSE Int0

Step ==
  \/ E.op = "set" /\ SetText(E.d, E.text, E.ex) /\ (~E.ex => Out(E.d))
  \/ E.op = "add" /\ Add(E.d, E.a, E.b) /\ Out(E.d)
  \/ E.op = "sub" /\ Sub(E.d, E.a, E.b) /\ Out(E.d)
  \/ E.op = "mul" /\ Mul(E.d, E.a, E.b) /\ Out(E.d)
  \/ E.op = "sqr" /\ Sqr(E.d, E.a) /\ Out(E.d)
  \/ E.op = "abs" /\ Abs(E.d, E.a) /\ Out(E.d)
  \/ E.op = "copy" /\ Copy(E.d, E.a) /\ Out(E.d)
  \/ E.op = "move" /\ Canon(E.src) /\ Move(E.d, E.a, ParseInt(E.src)) /\ Out(E.d)
  \/ E.op = "pow" /\ Pow(E.d, E.a, E.e, E.ex) /\ (~E.ex => Out(E.d))
  \/ E.op = "div" /\ (~E.ex => Canon(E.out)) /\ Div(E.d, E.a, E.b, E.ex, Res)
  \/ E.op = "mod" /\ (~E.ex => Canon(E.quot))
                  /\ Mod(E.d, E.a, E.b, E.ex, IF E.ex THEN Int0 ELSE ParseInt(E.quot)) /\ (~E.ex => Out(E.d))
  \/ E.op = "sqrt" /\ (~E.ex => Canon(E.out)) /\ Sqrt(E.d, E.a, E.ex, Res)
  \/ E.op = "cmp" /\ CmpOk(E.a, E.b, E) /\ Keep
  \* every register still prints as its value: operands were not modified
  \/ E.op = "dump" /\ Keep /\ \A k \in 1..Regs : RenderInt(regs[k]) = E.regs[k]

Next == \/ i <= Len(Hist[h]) /\ Step /\ i' = i + 1 /\ UNCHANGED h
        \/ i > Len(Hist[h]) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
