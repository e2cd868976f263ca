------------------------------ MODULE TShared ------------------------------
(* Recorded histories of shared and weak pointers are behaviours of Shared. *)
EXTENDS Shared, Json, IOUtils, TLC
Hist == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES m, h, i
vars == <<m, h, i>>
E == Hist[h][i]
TInit == h \in 1..Len(Hist) /\ i = 1 /\ m = M0
SetOf(q) == {q[k] : k \in 1..Len(q)}
Distinct(q) == Cardinality(SetOf(q)) = Len(q)

\* what the program can see after a step from memory a to memory b
Seen(a, b) ==
  /\ Distinct(E.died) /\ SetOf(E.died) = (a.alive \cup ((a.born + 1)..b.born)) \ b.alive     \* destroyed in this very step, each once
  /\ ~E.late                                                    \* nobody could lock an object being destroyed
  /\ \A l \in Places : IF ~Exists(b, l) THEN E.sh[l] = -1
                       ELSE /\ E.sh[l] = b.sh[l]
                            /\ E.lock[l] = Locked(b, l)
                            /\ E.expired[l] = (Locked(b, l) = 0)
  /\ E.eqs                                                      \* comparisons of the variables agree with identity
Op == /\ E.op \notin {"skip", "end", "crash"}
      /\ Exists(m, E.d) /\ Exists(m, E.s)
      /\ LET r == SEffect(m, E) IN
         /\ E.ex = r.ex
         /\ E.op = "deref" /\ ~r.ex => E.v = m.sh[E.d]
         /\ E.op = "wderef" /\ ~r.ex => E.v = Locked(m, E.d)
         /\ E.op \in {"crowd", "crowdnull"} => E.v = m.sh[E.d] /\ E.kept /\ E.left \in {-1, IF m.sh[E.d] \in r.m.alive THEN m.sh[E.d] ELSE 0}
         \* a moved-from weak pointer may keep watching or be empty
         /\ LET b == IF E.op = "wmove" /\ E.d # E.s /\ E.kept THEN [r.m EXCEPT !.wk[E.s] = m.wk[E.s]] ELSE r.m IN
            /\ Seen(m, b) = TRUE
            /\ m' = b
Skip == E.op = "skip" /\ (~Exists(m, E.d) \/ ~Exists(m, E.s)) /\ UNCHANGED m
End == /\ E.op = "end"
       /\ Distinct(E.died) /\ SetOf(E.died) = m.alive
       /\ E.blocks = 0
       /\ m' = Cleared(m)
Next == \/ i <= Len(Hist[h]) /\ (Op \/ Skip \/ End) /\ i' = i + 1 /\ UNCHANGED h
        \/ i > Len(Hist[h]) /\ UNCHANGED vars
Spec == TInit /\ [][Next]_vars
=============================================================================
