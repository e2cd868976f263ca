------------------------------ MODULE TUnique ------------------------------
(* Recorded histories of unique pointers and raw wrappers are behaviours of Unique. *)
EXTENDS Unique, Json, IOUtils, TLC
Hist == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES m, h, i
vars == <<m, h, i>>
E == Hist[h][i]
TInit == h \in 1..Len(Hist) /\ i = 1 /\ m = M0
SetOf(q) == {q[k] : k \in 1..Len(q)}
Distinct(q) == Cardinality(SetOf(q)) = Len(q)
Seen(a, b) ==
  /\ Distinct(E.died) /\ SetOf(E.died) = (a.alive \cup ((a.born + 1)..b.born)) \ b.alive
  /\ \A l \in Places : E.up[l] = (IF Exists(b, l) THEN b.up[l] ELSE -1)
  /\ \A l \in 1..Roots : E.pt[l] = b.pt[l]
  /\ E.eqs
Op == /\ E.op \notin {"skip", "end", "crash"}
      /\ Allowed(m, E)
      /\ LET r == UEffect(m, E) IN
         /\ E.ex = r.ex
         /\ E.op = "deref" /\ ~r.ex => E.v = m.up[E.d]
         /\ E.op = "pderef" /\ ~r.ex => E.v = m.pt[E.d]
         /\ E.op = "release" => E.v = m.up[E.d]
         /\ Seen(m, r.m) = TRUE
         /\ m' = r.m
Skip == E.op = "skip" /\ ~Allowed(m, E.e) /\ UNCHANGED m
\* the variables go away: owned objects with them, except those in cycles of ownership, which the program then breaks; loose ones are deleted
End == /\ E.op = "end"
       /\ Distinct(E.died) /\ SetOf(E.died) = m.alive
       /\ E.blocks = 0
       /\ m' = [M0 EXCEPT !.born = m.born]
Next == \/ i <= Len(Hist[h]) /\ (Op \/ Skip \/ End) /\ i' = i + 1 /\ UNCHANGED h
        \/ i > Len(Hist[h]) /\ UNCHANGED vars
Spec == TInit /\ [][Next]_vars
=============================================================================
