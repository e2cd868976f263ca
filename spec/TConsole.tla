------------------------------ MODULE TConsole ------------------------------
(* Recorded histories of the four streams are behaviours of Console.  Events carry what the call added to each stream. *)
EXTENDS Console, Json, IOUtils, TLC
Hist == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES s, h, i
vars == <<s, h, i>>
E == Hist[h][i]
Short(t) == [t EXCEPT !.out = <<>>, !.err = <<>>]
TInit == h \in 1..Len(Hist) /\ i = 1 /\ s = C0
Step == /\ E.op \notin {"skip", "crash"} /\ Allowed(s, E)
        /\ LET r == Effect(s, E) IN
           /\ (E.res = r.res /\ E.out = r.s.out /\ E.err = r.s.err /\ ~E.ex) = TRUE
           /\ s' = Short(r.s)
Skip == E.op = "skip" /\ UNCHANGED s
Next == \/ i <= Len(Hist[h]) /\ (Step \/ Skip) /\ i' = i + 1 /\ UNCHANGED h
        \/ i > Len(Hist[h]) /\ UNCHANGED vars
Spec == TInit /\ [][Next]_vars
=============================================================================
