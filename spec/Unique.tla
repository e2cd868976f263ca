------------------------------- MODULE Unique -------------------------------
(* Unique pointers and raw pointer wrappers.  Places 1..Roots are variables, place Roots + o the field of object o.  A loose      *)
(* object has no owner (released, or made for a raw wrapper) and lives until it is deleted explicitly.                           *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Roots, Objs

Places == 1..(Roots + Objs)
Holder(l) == IF l <= Roots THEN 0 ELSE l - Roots
Exists(m, l) == Holder(l) = 0 \/ Holder(l) \in m.alive
\* up: owned object of every place; pt: target of every raw wrapper (1..Roots), possibly dead
M0 == [up |-> [l \in Places |-> 0], pt |-> [l \in 1..Roots |-> 0], alive |-> {}, loose |-> {}, born |-> 0]

RECURSIVE Settle(_)
Settle(m) ==
  LET dead == {o \in m.alive \ m.loose : \A l \in Places : ~(Exists(m, l) /\ m.up[l] = o)} IN
  IF dead = {} THEN m
  ELSE Settle([m EXCEPT !.up = [l \in Places |-> IF Holder(l) \in dead THEN 0 ELSE m.up[l]], !.alive = m.alive \ dead])
\* explicit deletion of a loose object (0: nothing)
Delete(m, o) == Settle([m EXCEPT !.alive = @ \ {o}, !.loose = @ \ {o}, !.up = [l \in Places |-> IF Holder(l) = o /\ o # 0 THEN 0 ELSE m.up[l]]])
Set(m, l, v) == [m EXCEPT !.up[l] = v]
Born(m, lo) == [m EXCEPT !.born = @ + 1, !.alive = @ \cup {m.born + 1}, !.loose = IF lo THEN @ \cup {m.born + 1} ELSE @]
Ok(m) == [m |-> Settle(m), ex |-> FALSE]
Owner(m, o) == {l \in Places : Exists(m, l) /\ m.up[l] = o}
UEffect(m, e) ==
  CASE e.op = "new"     -> Ok(Set(Born(m, FALSE), e.d, m.born + 1))
    [] e.op = "null"    -> Ok(Set(m, e.d, 0))
    [] e.op = "move"    -> Ok(IF e.d = e.s THEN m ELSE Set(Set(m, e.s, 0), e.d, m.up[e.s]))
    [] e.op = "swap"    -> Ok(Set(Set(m, e.d, m.up[e.s]), e.s, m.up[e.d]))
    [] e.op = "self"    -> Ok(m)
    [] e.op = "release" -> Ok([Set(m, e.d, 0) EXCEPT !.loose = IF m.up[e.d] = 0 THEN @ ELSE @ \cup {m.up[e.d]}])
    [] e.op = "adopt"   -> Ok([Set(m, e.d, e.o) EXCEPT !.loose = @ \ {e.o}])
    [] e.op = "deref"   -> [m |-> m, ex |-> m.up[e.d] = 0]
    \* raw wrappers
    [] e.op = "pset"    -> Ok([m EXCEPT !.pt[e.d] = e.o])
    [] e.op = "pcopy"   -> Ok([m EXCEPT !.pt[e.d] = m.pt[e.s]])
    [] e.op = "pnew"    -> Ok([Born(m, TRUE) EXCEPT !.pt[e.d] = m.born + 1])
    [] e.op = "preset"  -> Ok(IF m.pt[e.d] = e.o THEN m ELSE [Delete(m, m.pt[e.d]) EXCEPT !.pt[e.d] = e.o])
    [] e.op = "presetnew" -> Ok([Delete(Born(m, TRUE), m.pt[e.d]) EXCEPT !.pt[e.d] = m.born + 1])
    [] e.op = "pdestroy" -> Ok([Delete(m, m.pt[e.d]) EXCEPT !.pt[e.d] = 0])
    [] e.op = "pself"   -> Ok(Delete(m, e.o))                 \* an object deleted through a wrapper inside itself
    [] e.op = "pdrop"   -> Ok([m EXCEPT !.pt[e.d] = 0])       \* the wrapper itself goes away
    [] e.op = "pderef"  -> [m |-> m, ex |-> m.pt[e.d] = 0]
\* may the program do this at all?
Allowed(m, e) ==
  CASE e.op \in {"new", "null", "self", "release", "deref"} -> Exists(m, e.d)
    [] e.op \in {"move", "swap"} -> Exists(m, e.d) /\ Exists(m, e.s)
    [] e.op = "adopt" -> Exists(m, e.d) /\ e.o \in m.loose
    [] e.op = "pself" -> e.o \in m.loose
    [] e.op = "pset" -> e.o = 0 \/ e.o \in m.alive
    [] e.op \in {"pcopy", "pnew", "pdrop"} -> TRUE
    [] e.op = "preset" -> m.pt[e.d] = e.o \/ ((m.pt[e.d] = 0 \/ m.pt[e.d] \in m.loose) /\ (e.o = 0 \/ e.o \in m.loose))
    [] e.op \in {"presetnew", "pdestroy"} -> m.pt[e.d] = 0 \/ m.pt[e.d] \in m.loose
    [] e.op = "pderef" -> m.pt[e.d] = 0 \/ m.pt[e.d] \in m.alive
=============================================================================
