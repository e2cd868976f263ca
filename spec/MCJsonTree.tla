----------------------------- MODULE MCJsonTree -----------------------------
(* All short histories over small trees: laws of access, copies and removal; transitions are emitted as tests. *)
EXTENDS JsonTree, TLC, Json
CONSTANTS MaxNodes, MaxLen, Emit, Full, Only      \* Only: operations considered ({}: all)
VARIABLES m, hist
vars == <<m, hist>>
Init == m = M0 /\ hist = <<>>
RECURSIVE Nodes(_)
Sum(q) == LET RECURSIVE S(_) S(k) == IF k = 0 THEN 0 ELSE Nodes(q[k]) + S(k - 1) IN S(Len(q))
Nodes(v) == 1 + (CASE v.t = "arr" -> Sum(v.a) [] v.t = "obj" -> Sum(v.v) [] OTHER -> 0)
KA == [k |-> <<97>>]
KB == [k |-> <<98>>]
N0 == [n |-> 0]
N1 == [n |-> 1]
Paths == IF Full THEN {<<KA>>, <<KB>>, <<KA, KA>>, <<KA, N1>>, <<KA, N0>>} ELSE {<<KA>>, <<KA, KB>>, <<KA, N1>>}
VPaths == IF Full THEN {<<>>, <<KA>>, <<N1>>} ELSE {<<>>, <<N0>>}
Locs == {[p |-> p, path |-> q] : p \in 1..Docs, q \in Paths} \cup {[p |-> p, path |-> q] : p \in (Docs + 1)..(Docs + Vars), q \in VPaths}
Vals == {IntV(FALSE, <<1>>), StrV(<<120>>)}
Good == <<123, 34, 98, 34, 58, 49, 125>>
Wrong == <<123, 34, 98, 34, 58, 125>>
Do(e) == (Only = {} \/ e.op \in Only) /\ Allowed(m, e) /\ m' = JEffect(m, e).m /\ hist' = Append(hist, e)
Next ==
  /\ Len(hist) < MaxLen
  /\ \/ \E l \in Locs : \E v \in Vals : Do([op |-> "set", d |-> l, v |-> v])
     \/ \E l \in Locs : \E o \in {"touch", "at"} : Do([op |-> o, d |-> l])
     \/ \E l \in Locs : Do([op |-> "append", d |-> l, v |-> IntV(FALSE, <<1>>)])
     \/ \E l \in Locs, s \in Locs : \E o \in {"assign", "appendfrom", "move"} : Do([op |-> o, d |-> l, s |-> s])
     \/ \E d \in 1..Docs : \E k \in {<<97>>, <<98>>} : Do([op |-> "remove", d |-> d, k |-> k])
     \/ \E d \in 1..Docs : \E s \in Locs : Do([op |-> "addfrom", d |-> d, k |-> <<98>>, s |-> s])
     \/ \E d \in 1..Docs : \E s \in 1..Docs : \E o \in {"copydoc", "movedoc"} : Do([op |-> o, d |-> d, s |-> s])
     \/ \E d \in 1..Docs : Do([op |-> "clear", d |-> d]) \/ Do([op |-> "parse", d |-> d, s |-> Good]) \/ Do([op |-> "parse", d |-> d, s |-> Wrong])
  /\ \A p \in Places : Nodes(m'.r[p]) <= MaxNodes
Spec == Init /\ [][Next]_vars
View == m
TreesOk == \A p \in Places : WellFormed(m.r[p])
\* what was written is read back; everything not inside what was written is as before
LastE == hist'[Len(hist')]
Others(p) == \A q \in Places \ p : m'.r[q] = m.r[q] /\ (q <= Docs => m'.err[q] = m.err[q])
Step ==
  LET e == LastE IN
  /\ e.op \in {"set", "assign"} /\ ~JEffect(m, e).ex => There(m', e.d) /\ Get(m', e.d) = (IF e.op = "set" THEN e.v ELSE Get(Ensure(m, e.d), e.s))
  /\ e.op \in {"set", "touch", "append", "assign", "appendfrom"} => Others({e.d.p})
  /\ e.op = "move" => Others({e.d.p, e.s.p})
  /\ e.op = "at" => m' = m
  /\ e.op \in {"set", "touch", "append", "assign", "appendfrom"} =>
       \A l \in Locs : l.p = e.d.p /\ There(m, l) /\ ~Inside(l, e.d) /\ ~Inside(e.d, l) /\ There(m', l) => Get(m', l) = Get(m, l)
  /\ e.op = "remove" => ~There(m', [p |-> e.d, path |-> <<[k |-> e.k]>>]) /\ \A l \in Locs : l.p = e.d /\ l.path # <<>> /\ l.path[1] # [k |-> e.k] /\ There(m, l) => There(m', l) /\ Get(m', l) = Get(m, l)
  /\ e.op \in {"clear", "parse", "copydoc"} => Others({e.d})
  /\ e.op \in {"clear", "parse"} => m'.err[e.d] = (m'.r[e.d].t # "obj")
  /\ e.op = "copydoc" => m'.r[e.d] = m'.r[e.s] /\ m'.err[e.d] = m'.err[e.s]
StepLaw == [][Step]_vars
EmitTest == IF Emit THEN PrintT("T:" \o ToJson(hist')) ELSE TRUE
=============================================================================
