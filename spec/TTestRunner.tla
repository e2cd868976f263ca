----------------------------- MODULE TTestRunner ----------------------------
(* Recorded runs of the test registry print and call what the report says. *)
EXTENDS TestRunner, Json, IOUtils, TLC
Hist == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES reg, h, i
vars == <<reg, h, i>>
E == Hist[h][i]
TInit == h \in 1..Len(Hist) /\ i = 1 /\ reg = <<>>
Add == E.op = "add" /\ reg' = Append(reg, [suite |-> E.suite, name |-> E.name, fn |-> E.fn, fix |-> E.fix])
\* functions are numbered from 1; E.oc[f] says what the function did when called
Run == /\ E.op = "run" /\ UNCHANGED reg
       /\ (LET want == Report(reg, E.oc) IN Len(want) = Len(E.lines) /\ \A k \in DOMAIN want : (want[k] = E.lines[k] \/ (want[k].k = "info" /\ want[k].n = 1 /\ E.lines[k].k = "info"))) = TRUE
       /\ (E.status = 0) = (Status(reg, E.oc) = 0)
       /\ (E.exit = 0) = (Status(reg, E.oc) = 0)                  \* also as the exit status of a program, which keeps its low eight bits
Next == \/ i <= Len(Hist[h]) /\ (Add \/ Run) /\ i' = i + 1 /\ UNCHANGED h
        \/ i > Len(Hist[h]) /\ UNCHANGED vars
Spec == TInit /\ [][Next]_vars
=============================================================================
