------------------------------- MODULE MCApp --------------------------------
(* All short histories: initialisation succeeds once, and the arguments never change after it whatever the caller does. *)
EXTENDS App, TLC, Json
CONSTANTS Texts, MaxSteps, Emit
MCTexts == {<<>>, <<97>>, <<98, 99>>}
VARIABLES s, hist, ok
vars == <<s, hist, ok>>
Init == s = A0 /\ hist = <<>> /\ ok = 0
Do(e) == Allowed(s, e) /\ Len(hist) < MaxSteps /\ LET r == Effect(s, e) IN s' = r.s /\ hist' = Append(hist, e) /\ ok' = IF e.op \in {"init", "initArgs"} /\ ~r.ex THEN ok + 1 ELSE ok
Next == \/ Do([op |-> "init"]) \/ (\E n \in -1..2 : Do([op |-> "initArgs", n |-> n])) \/ Do([op |-> "look"])
        \/ (\E m \in 0..2 : \E x \in [1..m -> Texts] : Do([op |-> "store", x |-> x]))
        \/ (\E k \in 1..2 : \E x \in Texts : Do([op |-> "poke", k |-> k, x |-> x]))
Spec == Init /\ [][Next]_vars
View == <<s, ok>>
Once == ok = (IF s.done THEN 1 ELSE 0)
Kept == [][s.done => s'.done /\ s'.args = s.args]_vars
Given == [][(~s.done /\ s'.done) => LET e == hist'[Len(hist')] IN s'.args = (IF e.op = "init" \/ e.n <= 0 THEN <<>> ELSE SubSeq(s.store, 1, e.n))]_vars
EmitTest == IF Emit THEN PrintT("T:" \o ToJson(hist')) ELSE TRUE
=============================================================================
