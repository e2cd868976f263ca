------------------------------- MODULE Shared -------------------------------
(* Shared and weak pointers.  Places 1..Roots are variables, place Roots + o is the field of object o; every place has a shared   *)
(* and a weak pointer.  Value 0 is the empty pointer.  An object lives as long as some shared pointer in a variable or in a living *)
(* object owns it; when the last owner lets go it dies, its fields let go in turn.                                                *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Roots, Objs

Places == 1..(Roots + Objs)
Holder(l) == IF l <= Roots THEN 0 ELSE l - Roots
Exists(m, l) == Holder(l) = 0 \/ Holder(l) \in m.alive
\* m: memory [sh, wk : places -> 0..Objs, alive : set of objects, born : number of objects so far]
M0 == [sh |-> [l \in Places |-> 0], wk |-> [l \in Places |-> 0], alive |-> {}, born |-> 0]

RECURSIVE Settle(_)
Settle(m) ==
  LET dead == {o \in m.alive : \A l \in Places : ~(Exists(m, l) /\ m.sh[l] = o)} IN
  IF dead = {} THEN m
  ELSE Settle([m EXCEPT !.sh = [l \in Places |-> IF Holder(l) \in dead THEN 0 ELSE m.sh[l]],
                        !.wk = [l \in Places |-> IF Holder(l) \in dead THEN 0 ELSE m.wk[l]],
                        !.alive = m.alive \ dead])
Locked(m, l) == IF m.wk[l] \in m.alive THEN m.wk[l] ELSE 0

Set(m, l, v) == [m EXCEPT !.sh[l] = v]
WSet(m, l, v) == [m EXCEPT !.wk[l] = v]
Ok(m) == [m |-> Settle(m), ex |-> FALSE]
\* effect of operation e: the memory afterwards and whether it is refused
SEffect(m, e) ==
  CASE e.op = "new"    -> LET o == m.born + 1 IN Ok([Set(m, e.d, o) EXCEPT !.born = o, !.alive = @ \cup {o}])
    [] e.op = "null"   -> Ok(Set(m, e.d, 0))
    [] e.op = "crowd"  -> Ok(m)                        \* many more owners and watchers for a while
    [] e.op = "crowdnull" -> Ok(Set(m, e.d, 0))        \* the place lets go while they hold the object; then they let go
    [] e.op = "copy"   -> Ok(Set(m, e.d, m.sh[e.s]))
    [] e.op = "move"   -> Ok(IF e.d = e.s THEN m ELSE Set(Set(m, e.s, 0), e.d, m.sh[e.s]))
    [] e.op = "swap"   -> Ok(Set(Set(m, e.d, m.sh[e.s]), e.s, m.sh[e.d]))
    [] e.op = "self"   -> Ok(m)                        \* reset to the object it already owns; temporary copies
    [] e.op = "deref"  -> [m |-> m, ex |-> m.sh[e.d] = 0]
    [] e.op = "watch"  -> Ok(WSet(m, e.d, m.sh[e.s]))
    [] e.op = "wnull"  -> Ok(WSet(m, e.d, 0))
    [] e.op = "wcopy"  -> Ok(WSet(m, e.d, m.wk[e.s]))
    [] e.op = "wmove"  -> Ok(IF e.d = e.s THEN m ELSE WSet(WSet(m, e.s, 0), e.d, m.wk[e.s]))
    [] e.op = "lock"   -> Ok(Set(m, e.d, Locked(m, e.s)))
    [] e.op = "wderef" -> [m |-> m, ex |-> Locked(m, e.d) = 0]
\* every place let go of, in whatever order: everything is gone
Cleared(m) == [m EXCEPT !.sh = [l \in Places |-> 0], !.wk = [l \in Places |-> 0], !.alive = {}]
=============================================================================
