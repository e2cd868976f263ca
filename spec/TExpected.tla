----------------------------- MODULE TExpected ------------------------------
(* Recorded histories of results are behaviours of Expected. *)
EXTENDS Expected, Json, IOUtils, TLC
Hist == ndJsonDeserialize(IOEnv.TRACE_FILE)
CONSTANT Slots
VARIABLES m, h, i
vars == <<m, h, i>>
E == Hist[h][i]
TInit == h \in 1..Len(Hist) /\ i = 1 /\ m = [s \in 1..Slots |-> <<>>]
\* E.tv, E.te: are values (errors) of the payload type that counts its instances; E.live: instances alive; E.bad: destroyed twice or never made
Live(a) == Cardinality({s \in 1..Slots : a[s] # <<>> /\ (IF IsOk(a[s]) THEN E.tv ELSE E.te)})
Seen(a, free) == /\ \A s \in 1..Slots : s # free => E.obs[s] = a[s]
                 /\ (free # 0 => E.obs[free] # <<>> /\ Len(E.obs[free]) = 2)
                 /\ E.live = Live([s \in 1..Slots |-> E.obs[s]])
                 /\ E.bad = 0
Own == /\ E.op \in FromContent \cup {"cc", "cm", "ac", "am", "del"}
       /\ Allowed(m, E)
       /\ IF E.threw # 0
          THEN E.threw = 3 /\ E.k > 0 /\ Seen(m, 0) = TRUE /\ m' = m                       \* a copy failed: nothing has changed
          ELSE Seen(After(m, E), MovedFrom(E)) = TRUE /\ m' = [s \in 1..Slots |-> E.obs[s]]
Com == /\ E.op \in Combs
       /\ Allowed(m, E)
       /\ Seen(m, 0) = TRUE
       /\ LET c == Comb(E.op, m[E.s], E.f, E.a) IN
          IF E.out = CopyFailed THEN E.k > 0 /\ Len(E.calls) <= Len(c.calls) /\ SubSeq(c.calls, 1, Len(E.calls)) = E.calls
          ELSE E.calls = c.calls /\ E.out = c.out
       /\ E.msg
       /\ m' = m
Skip == E.op = "skip" /\ ~Allowed(m, E.e) /\ UNCHANGED m
End == E.op = "end" /\ E.live = 0 /\ E.bad = 0 /\ E.blocks = 0 /\ m' = m
Next == \/ i <= Len(Hist[h]) /\ (Own \/ Com \/ Skip \/ End) /\ i' = i + 1 /\ UNCHANGED h
        \/ i > Len(Hist[h]) /\ UNCHANGED vars
Spec == TInit /\ [][Next]_vars
=============================================================================
