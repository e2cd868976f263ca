------------------------------ MODULE Parallel -------------------------------
(* Threads that use objects of their own, and read objects that nobody changes, do not disturb each other.                     *)
(* Every thread runs a program over objects: its own ones (written and read) and one that all of them only read.  An operation *)
(* is a sequence of accesses to memory; between any two of them the other threads go on.  Memory judges the accesses, and what *)
(* a thread finds must be what it finds when it runs alone: then its history is one of its component's specification, which is  *)
(* how the recorded histories of every thread are judged (TStrings, TText, TJson, ...; a race is no step of any of them).       *)
EXTENDS Memory, TLC
CONSTANTS Threads, MaxOps,
          Scratch,      \* operations use a scratch area of the whole program
          Cache,        \* reading fills a cache in the object
          Count         \* copies share their text with a count that is not atomic
VARIABLES mem, val, scratch, cache, todo, at, found, alone, ok
vars == <<mem, val, scratch, cache, todo, at, found, alone, ok>>

T == 1..Threads
Shared == 0
Objects == {Shared} \cup T
\* cells: of the objects, their caches, their counts, and the scratch area
Cell(o) == 10 + o
CacheOf(o) == 20 + o
CountOf(o) == 30 + o
ScratchCell == 1
Cells == {ScratchCell} \cup {Cell(o) : o \in Objects} \cup {CacheOf(o) : o \in Objects} \cup {CountOf(o) : o \in Objects}
Ops == {"write", "read", "look", "copy"}         \* change and read its own object, read the common one, make its own a copy of that
Obj(t, op) == IF op \in {"look", "copy"} THEN Shared ELSE t
\* the accesses of an operation
Steps(t, op) ==
     (IF Scratch THEN <<[k |-> "keep", c |-> ScratchCell, m |-> "w"]>> ELSE <<>>)
  \o <<[k |-> "get", c |-> Cell(Obj(t, op)), m |-> "r"]>>
  \o (IF Cache /\ op \in {"read", "look"} THEN <<[k |-> "cache", c |-> CacheOf(Obj(t, op)), m |-> "w"]>> ELSE <<>>)
  \o (IF Count /\ op = "copy" THEN <<[k |-> "count", c |-> CountOf(Shared), m |-> "w"]>> ELSE <<>>)
  \o (IF Scratch THEN <<[k |-> "recall", c |-> ScratchCell, m |-> "r"]>> ELSE <<>>)
  \o (IF op \in {"write", "copy"} THEN <<[k |-> "put", c |-> Cell(t), m |-> "w"]>> ELSE <<>>)
\* what the operations of a program find, one after the other, when nobody else is there
After(op, own) == IF op = "write" THEN own + 1 ELSE IF op = "copy" THEN 100 ELSE own
Finds(op, own) == IF op \in {"look", "copy"} THEN 100 ELSE own
RECURSIVE Alone(_, _)
Alone(p, own) == IF p = <<>> THEN <<>> ELSE <<Finds(p[1], own)>> \o Alone(Tail(p), After(p[1], own))
Programs == UNION {[1..n -> Ops] : n \in 1..MaxOps}
Init == /\ mem = M0(Threads, Cells, {})
        /\ val = [o \in Objects |-> IF o = Shared THEN 100 ELSE o]
        /\ scratch = 0 /\ cache = [o \in Objects |-> 0] /\ ok = TRUE
        /\ todo \in [T -> Programs]
        /\ at = [t \in T |-> [k |-> 1, reg |-> 0]] /\ found = [t \in T |-> <<>>]
        /\ alone = [t \in T |-> Alone(todo[t], t)]
Step(t) ==
  /\ todo[t] # <<>>
  /\ LET op == todo[t][1]
         all == Steps(t, op)
         s == all[at[t].k]
         r == at[t].reg
         last == at[t].k = Len(all)
         now == CASE s.k = "get" -> val[Obj(t, op)] [] s.k = "recall" -> (IF scratch = t THEN r ELSE 0) [] OTHER -> r
     IN /\ ok' = (ok /\ CellOk(mem, t, s.c, s.m))
        /\ mem' = Access(mem, t, <<s.c>>, s.m, FALSE, FALSE)
        /\ val' = IF s.k = "put" THEN [val EXCEPT ![t] = IF op = "write" THEN r + 1 ELSE r] ELSE val
        /\ scratch' = IF s.k = "keep" THEN t ELSE scratch
        /\ cache' = IF s.k = "cache" THEN [cache EXCEPT ![Obj(t, op)] = r] ELSE cache
        /\ at' = [at EXCEPT ![t] = IF last THEN [k |-> 1, reg |-> 0] ELSE [k |-> @.k + 1, reg |-> now]]
        /\ found' = IF last THEN [found EXCEPT ![t] = Append(@, now)] ELSE found
        /\ todo' = IF last THEN [todo EXCEPT ![t] = Tail(@)] ELSE todo
        /\ UNCHANGED alone
Next == \E t \in T : Step(t)
Spec == Init /\ [][Next]_vars
NoRace == ok
Undisturbed == \A t \in T : \A k \in 1..Len(found[t]) : found[t][k] = alone[t][k]
Untouched == val[Shared] = 100
=============================================================================
