------------------------------- MODULE Builder -------------------------------
(* Caitlyn::StringBuilder objects: each is absent (<<>>) or <<text>>. *)
EXTENDS Format

LF == 10
Some(x) == <<x>>
Absent == <<>>

\* text an appending operation adds: the text itself, or the formatted template when arguments are given
Added(e) == IF e.args = <<>> THEN [kind |-> "ok", out |-> e.text] ELSE Formatted(e.text, e.args)

\* outcome of operation e on builders b: set of possible [st, ex] pairs (more than one only where formatting is open)
BEffect(b, e) ==
  CASE e.op = "new"  -> [st |-> [b EXCEPT ![e.d] = Some(e.text)], ex |-> FALSE]
    [] e.op = "copy" -> [st |-> [b EXCEPT ![e.d] = b[e.a]], ex |-> FALSE]
    [] e.op = "move" -> [st |-> [b EXCEPT ![e.a] = Absent, ![e.d] = b[e.a]], ex |-> FALSE]
    [] e.op = "drop" -> [st |-> [b EXCEPT ![e.d] = Absent], ex |-> FALSE]
    [] OTHER ->
         LET f == Added(e) IN
         IF f.kind # "ok" THEN [st |-> b, ex |-> TRUE]
         ELSE CASE e.op = "newf"   -> [st |-> [b EXCEPT ![e.d] = Some(f.out)], ex |-> FALSE]
                [] e.op = "append" -> [st |-> [b EXCEPT ![e.d] = Some(b[e.d][1] \o f.out)], ex |-> FALSE]
                [] e.op = "line"   -> [st |-> [b EXCEPT ![e.d] = Some(b[e.d][1] \o f.out \o <<LF>>)], ex |-> FALSE]
=============================================================================
