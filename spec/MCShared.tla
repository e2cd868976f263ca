------------------------------ MODULE MCShared ------------------------------
(* All histories over small memories: ownership laws; every transition is emitted as an implementation test. *)
EXTENDS Shared, TLC, Json
CONSTANTS Emit, WPlaces        \* places whose weak pointer is used
VARIABLES m, hist
vars == <<m, hist>>
Init == m = M0 /\ hist = <<>>
Do(e) == m' = SEffect(m, e).m /\ hist' = Append(hist, e)
Here == {l \in Places : Exists(m, l)}
Next == \E d \in Here :
  \/ \E o \in {"null", "self", "deref"} : Do([op |-> o, d |-> d, s |-> d])
  \/ d \in WPlaces /\ \E o \in {"wnull", "wderef"} : Do([op |-> o, d |-> d, s |-> d])
  \/ m.born < Objs /\ Do([op |-> "new", d |-> d, s |-> d])
  \/ \E s \in Here : \E o \in {"copy", "move", "swap"} : Do([op |-> o, d |-> d, s |-> s])
  \/ \E s \in Here : d \in WPlaces /\ Do([op |-> "watch", d |-> d, s |-> s])
  \/ \E s \in Here : s \in WPlaces /\ Do([op |-> "lock", d |-> d, s |-> s])
  \/ \E s \in Here \cap WPlaces : d \in WPlaces /\ \E o \in {"wcopy", "wmove"} : Do([op |-> o, d |-> d, s |-> s])
Spec == Init /\ [][Next]_vars
View == m
\* alive exactly while owned; nothing owns a dead object; a dead object holds nothing; no object comes back
Owned == /\ \A o \in m.alive : \E l \in Here : m.sh[l] = o
         /\ \A l \in Places : m.sh[l] # 0 => m.sh[l] \in m.alive /\ Exists(m, l)
         /\ m.alive \subseteq 1..m.born
Step == /\ m.alive \cap (1..m.born) \subseteq m.alive
        /\ \A o \in 1..m.born : o \notin m.alive => o \notin m'.alive
        /\ \A o \in m.alive \ m'.alive : \E l \in Here : m.sh[l] = o /\ m'.sh[l] # o    \* dies only when an owner let go
StepLaw == [][Step]_vars
EmitTest == IF Emit THEN PrintT("T:" \o ToJson(hist')) ELSE TRUE
=============================================================================
