------------------------------ MODULE MCUnique ------------------------------
(* All histories over small memories: unique ownership; every transition is emitted as an implementation test. *)
EXTENDS Unique, TLC, Json
CONSTANTS Emit
VARIABLES m, hist
vars == <<m, hist>>
Init == m = M0 /\ hist = <<>>
Do(e) == Allowed(m, e) /\ m' = UEffect(m, e).m /\ hist' = Append(hist, e)
Next == \E d \in Places :
  \/ \E o \in {"null", "self", "release", "deref"} : Do([op |-> o, d |-> d])
  \/ m.born < Objs /\ Do([op |-> "new", d |-> d])
  \/ \E s \in Places : \E o \in {"move", "swap"} : Do([op |-> o, d |-> d, s |-> s])
  \/ \E o \in 1..Objs : Do([op |-> "adopt", d |-> d, o |-> o]) \/ (d = 1 /\ Do([op |-> "pself", d |-> d, o |-> o]))
  \/ d <= Roots /\
     \/ \E o \in 0..Objs : \E p \in {"pset", "preset"} : Do([op |-> p, d |-> d, o |-> o])
     \/ \E s \in 1..Roots : Do([op |-> "pcopy", d |-> d, s |-> s])
     \/ m.born < Objs /\ \E p \in {"pnew", "presetnew"} : Do([op |-> p, d |-> d])
     \/ \E p \in {"pdestroy", "pdrop", "pderef"} : Do([op |-> p, d |-> d])
Spec == Init /\ [][Next]_vars
View == m
Here == {l \in Places : Exists(m, l)}
OneOwner == /\ \A o \in m.alive : Cardinality(Owner(m, o)) = (IF o \in m.loose THEN 0 ELSE 1)
            /\ \A l \in Places : m.up[l] # 0 => Exists(m, l) /\ m.up[l] \in m.alive \ m.loose
            /\ m.loose \subseteq m.alive /\ m.alive \subseteq 1..m.born
Step == /\ \A o \in 1..m.born : o \notin m.alive => o \notin m'.alive
        /\ LET e == hist'[Len(hist')] IN
           /\ e.op \in {"release", "self", "deref", "swap", "adopt", "pset", "pcopy", "pnew", "pdrop", "pderef"} /\ ~(e.op = "adopt" /\ m.up[e.d] # 0)
                => m.alive \subseteq m'.alive                               \* these never destroy
StepLaw == [][Step]_vars
EmitTest == IF Emit THEN PrintT("T:" \o ToJson(hist')) ELSE TRUE
=============================================================================
