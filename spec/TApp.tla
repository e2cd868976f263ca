-------------------------------- MODULE TApp --------------------------------
(* Recorded histories of the application object are behaviours of App. *)
EXTENDS App, Json, IOUtils, TLC
Hist == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES s, h, i
vars == <<s, h, i>>
E == Hist[h][i]
TInit == h \in 1..Len(Hist) /\ i = 1 /\ s = A0
\* E.have: an object was returned; E.args: what it reports; E.same: every object returned so far is one object
Step == /\ E.op \notin {"skip", "crash"} /\ Allowed(s, E)
        /\ LET r == Effect(s, E) IN
           /\ (E.ex = r.ex /\ E.have = r.s.done /\ E.args = r.s.args /\ E.same /\ (E.ex => E.std)) = TRUE
           /\ s' = r.s
Skip == E.op = "skip" /\ UNCHANGED s
Next == \/ i <= Len(Hist[h]) /\ (Step \/ Skip) /\ i' = i + 1 /\ UNCHANGED h
        \/ i > Len(Hist[h]) /\ UNCHANGED vars
Spec == TInit /\ [][Next]_vars
=============================================================================
