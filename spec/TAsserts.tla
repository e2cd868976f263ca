------------------------------ MODULE TAsserts ------------------------------
(* Recorded test bodies: every assertion did what it has to, and the test ended with its first failure. *)
EXTENDS Asserts, Json, IOUtils, TLC
Hist == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES failed, h, i
vars == <<failed, h, i>>
E == Hist[h][i]
TInit == h \in 1..Len(Hist) /\ i = 1 /\ failed = FALSE
Step == /\ E.op = "assert" /\ ~failed
        /\ Good(E) = TRUE
        /\ failed' = ~Holds(E.a, E.f, E.x, E.y)
\* the end of the body: reached exactly if nothing failed; the else branch of an if around an assertion is not its own
End == E.op = "end" /\ E.ended = ~failed /\ ~E.stray /\ failed' = FALSE
Next == \/ i <= Len(Hist[h]) /\ (Step \/ End) /\ i' = i + 1 /\ UNCHANGED h
        \/ i > Len(Hist[h]) /\ UNCHANGED vars
Spec == TInit /\ [][Next]_vars
=============================================================================
