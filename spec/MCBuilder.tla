----------------------------- MODULE MCBuilder -----------------------------
(* Two builders and the list of pieces each was given: the text is always the concatenation of the pieces, copies are independent; *)
(* every transition is emitted as an implementation test.                                                                       *)
EXTENDS Builder, TLC, Json
CONSTANTS MaxLen, Emit
Regs == 2
R == 1..Regs
VARIABLES b, log, hist
vars == <<b, log, hist>>
\* templates: plain text with braces (only verbatim), a placeholder, a padded one, a faulty one
Given == {[text |-> <<97>>, args |-> <<>>], [text |-> <<LB>>, args |-> <<>>], [text |-> <<LB, RB>>, args |-> <<<<8364>>>>],
          [text |-> <<98, LB, 49, RB, LB>>, args |-> <<<<97>>, <<98>>>>], [text |-> <<>>, args |-> <<>>]}
Ops == [op : {"append", "line", "newf"}, d : R, g : Given] \cup [op : {"new"}, d : R, g : {[text |-> <<>>, args |-> <<>>], [text |-> <<97, 98>>, args |-> <<>>]}]
       \cup [op : {"copy", "move"}, d : R, a : R] \cup [op : {"drop"}, d : R]
Flat(o) == IF "g" \in DOMAIN o THEN [op |-> o.op, d |-> o.d, text |-> o.g.text, args |-> o.g.args] ELSE o
Init == b = [k \in R |-> Absent] /\ log = [k \in R |-> <<>>] /\ hist = <<>>
Piece(e) == IF e.op \in {"append", "line", "newf"} THEN Added(e).out \o (IF e.op = "line" THEN <<LF>> ELSE <<>>) ELSE e.text
Fits(x) == \A k \in R : (IF x[k] = Absent THEN 0 ELSE Len(x[k][1])) <= MaxLen
Next == \E o \in Ops : LET e == Flat(o)
                           r == BEffect(b, e) IN
  /\ e.op \in {"append", "line"} => b[e.d] # Absent
  /\ e.op \in {"copy", "move"} => b[e.a] # Absent /\ e.a # e.d
  /\ e.op = "newf" => e.args # <<>>
  /\ e.op \in {"append", "line", "newf"} => Added(e).kind # "open"
  /\ b' = r.st
  /\ Fits(b')
  /\ log' = CASE r.ex -> log
              [] e.op \in {"new", "newf"} -> [log EXCEPT ![e.d] = <<Piece(e)>>]
              [] e.op \in {"append", "line"} -> [log EXCEPT ![e.d] = Append(@, Piece(e))]
              [] e.op = "copy" -> [log EXCEPT ![e.d] = log[e.a]]
              [] e.op = "move" -> [log EXCEPT ![e.d] = log[e.a], ![e.a] = <<>>]
              [] OTHER -> [log EXCEPT ![e.d] = <<>>]
  /\ hist' = Append(hist, e)
Spec == Init /\ [][Next]_vars
View == b
Concat == \A k \in R : b[k] = (IF b[k] = Absent THEN Absent ELSE Some(FlattenSeq(log[k])))
ConcatStep == [][Concat']_vars
EmitTest == IF Emit THEN PrintT("T:" \o ToJson(hist')) ELSE TRUE
=============================================================================
