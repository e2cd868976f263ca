------------------------------- MODULE TNames --------------------------------
(* What a build of the library says about its names is what Names says; a build names everything. *)
EXTENDS Names, Json, IOUtils, TLC
Hist == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES h, i
vars == <<h, i>>
E == Hist[h][i]
TInit == h \in 1..Len(Hist) /\ i = 1
Next == \/ i <= Len(Hist[h]) /\ E.op # "crash" /\ (i = 1 => Complete(Hist[h])) /\ Good(E) = TRUE /\ i' = i + 1 /\ UNCHANGED h
        \/ i > Len(Hist[h]) /\ UNCHANGED vars
Spec == TInit /\ [][Next]_vars
=============================================================================
