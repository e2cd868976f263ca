------------------------------- MODULE TFiles -------------------------------
(* Recorded histories of file objects are behaviours of Files. *)
EXTENDS Files, Json, IOUtils, TLC
Hist == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES s, h, i
vars == <<s, h, i>>
E == Hist[h][i]
TInit == h \in 1..Len(Hist) /\ i = 1 /\ s = S0
\* E.objs[o] = <<exists, position, eof, bool>>
Seen(r) == /\ E.ex = r.ex
           /\ E.res = r.res
           /\ \A p \in 1..Paths : E.disk[p] = r.s.disk[p]
           /\ \A o \in 1..Objects :
                LET b == r.s.objs[o]  q == E.objs[o] IN
                IF b.path = 0 THEN q = <<>>
                ELSE /\ q[1] = b.pos
                     /\ q[2] = 1 - q[3]
                     /\ (q[2] = (IF b.eof THEN 1 ELSE 0)
                         \/ (E.op \in EofOpen /\ o = E.o /\ q[2] \in {0, IF s.objs[o].eof THEN 1 ELSE 0}))
\* a read that starts within a character: text that is not UTF-8, outcome open
Torn == /\ E.op = "readLine" /\ Allowed(s, E)
        /\ LET r == Effect(s, E) IN
           /\ r.res # <<>> /\ r.res[1] \in 128..191
           /\ \A p \in 1..Paths : E.disk[p] = r.s.disk[p]
           /\ s' = [r.s EXCEPT !.objs[E.o].pos = E.objs[E.o][1], !.objs[E.o].eof = (E.objs[E.o][2] = 1)]
Step == /\ E.op \notin {"skip", "crash"}
        /\ Allowed(s, E)
        /\ LET r == Effect(s, E) IN
           /\ ~(E.op = "readLine" /\ r.res # <<>> /\ r.res[1] \in 128..191)
           /\ Seen(r) = TRUE
           /\ s' = [r.s EXCEPT !.objs = [o \in 1..Objects |-> IF r.s.objs[o].path = 0 THEN NoObj ELSE [r.s.objs[o] EXCEPT !.eof = (E.objs[o][2] = 1)]]]
Skip == E.op = "skip" /\ ~Allowed(s, E.e) /\ UNCHANGED s
Next == \/ i <= Len(Hist[h]) /\ (Torn \/ Step \/ Skip) /\ i' = i + 1 /\ UNCHANGED h
        \/ i > Len(Hist[h]) /\ UNCHANGED vars
Spec == TInit /\ [][Next]_vars
=============================================================================
