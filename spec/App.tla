-------------------------------- MODULE App ---------------------------------
(* The application object: initialised once, with copies of the arguments the caller has in its storage. *)
EXTENDS Integers, Sequences
A0 == [done |-> FALSE, args |-> <<>>, store |-> <<>>]
Allowed(s, e) == CASE e.op = "initArgs" -> e.n <= Len(s.store) [] e.op = "poke" -> e.k \in DOMAIN s.store [] OTHER -> TRUE
Taken(s, n) == IF n <= 0 THEN <<>> ELSE SubSeq(s.store, 1, n)
Effect(s, e) ==
  CASE e.op = "init" -> IF s.done THEN [s |-> s, ex |-> TRUE] ELSE [s |-> [s EXCEPT !.done = TRUE], ex |-> FALSE]
    [] e.op = "initArgs" -> IF s.done THEN [s |-> s, ex |-> TRUE] ELSE [s |-> [s EXCEPT !.done = TRUE, !.args = Taken(s, e.n)], ex |-> FALSE]
    [] e.op = "store" -> [s |-> [s EXCEPT !.store = e.x], ex |-> FALSE]      \* the caller makes new storage (the old one is gone)
    [] e.op = "poke" -> [s |-> [s EXCEPT !.store[e.k] = e.x], ex |-> FALSE]  \* the caller writes into its storage
    [] e.op = "look" -> [s |-> s, ex |-> FALSE]
=============================================================================
