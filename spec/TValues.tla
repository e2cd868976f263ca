------------------------------ MODULE TValues -------------------------------
(* Recorded answers of the utilities are those of Values. *)
EXTENDS Values, Json, IOUtils, TLC
Hist == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES h, i
vars == <<h, i>>
E == Hist[h][i]
TInit == h \in 1..Len(Hist) /\ i = 1
Next == \/ i <= Len(Hist[h]) /\ E.op # "crash" /\ Good(E) = TRUE /\ i' = i + 1 /\ UNCHANGED h
        \/ i > Len(Hist[h]) /\ UNCHANGED vars
Spec == TInit /\ [][Next]_vars
=============================================================================
