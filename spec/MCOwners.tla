------------------------------ MODULE MCOwners ------------------------------
(* Every interleaving of the atomic steps of short programs over shared and weak pointers of several threads; the      *)
(* programs are also emitted, to be run by the code.                                                                    *)
EXTENDS Owners, TLC, Json
CONSTANTS NThreads, Inits, MaxOps, OpSet, Keeps, Emit
MCInits == {<<1, 0, 1, 0>>, <<0, 0, 1, 1>>, <<1, 2, 1, 2>>}
MCInitsQ == {<<1, 0, 1, 0>>, <<1, 2, 1, 2>>}
MCInits2 == {<<1, 0, 1, 0>>, <<0, 0, 1, 1>>, <<1, 1, 0, 0>>, <<2, 1, 1, 2>>, <<1, 2, 2, 0>>, <<0, 0, 0, 0>>}
MCInits3 == {<<1, 0, 1, 0>>, <<0, 0, 1, 0>>}
MCKeeps == {<<>>, <<1>>}
MCNoKeeps == {<<>>}
MCOps == Ops \ {"enda", "endb", "endw", "endv", "drop", "nulla", "isnull", "watchv", "wmove", "dropb"}
MCAllOps == Ops \ {"enda", "endb", "endw", "endv", "drop"}
MCOps3 == {"copy", "dropa", "lock", "lockuse", "unwatch", "expired", "use", "take"}
VARIABLES init, prog, keep, s, todo, phase
vars == <<init, prog, keep, s, todo, phase>>
Ends == <<"endb", "enda", "endv", "endw">>
Seqs == UNION {[1..n -> OpSet] : n \in 0..MaxOps}
Init == /\ init \in [1..NThreads -> Inits] /\ prog \in [1..NThreads -> Seqs] /\ keep \in Keeps
        /\ s = O0(init, keep) /\ todo = [t \in 1..NThreads |-> prog[t] \o Ends] /\ phase = "run"
Same == UNCHANGED <<init, prog, keep>>
CallStep(t) == phase = "run" /\ s.pend[t + 1].o = "" /\ todo[t] # <<>> /\ CanCall(s, t + 1, Head(todo[t]))
               /\ s' = Call(s, t + 1, Head(todo[t])) /\ todo' = [todo EXCEPT ![t] = Tail(@)] /\ UNCHANGED phase /\ Same
ActStep(t) == CanAct(s, t) /\ s' = Act(s, t) /\ UNCHANGED <<todo, phase>> /\ Same
DestroyStep == \E p \in s.due : CanDestroy(s, p[1]) /\ s' = Destroy(s, p[1]) /\ UNCHANGED <<todo, phase>> /\ Same
RetStep(t) == CanRet(s, t) /\ s' = Ret(s, t) /\ UNCHANGED <<todo, phase>> /\ Same
JoinStep == phase = "run" /\ Quiet(s) /\ (\A t \in 1..NThreads : todo[t] = <<>>) /\ phase' = "joined" /\ UNCHANGED <<s, todo>> /\ Same
DropStep == phase = "joined" /\ Quiet(s) /\ s.kept # <<>> /\ s' = Call(s, 1, "drop") /\ UNCHANGED <<todo, phase>> /\ Same
Over == phase = "joined" /\ Quiet(s) /\ s.kept = <<>>
Next == \/ \E t \in 1..NThreads : CallStep(t)
        \/ \E t \in 1..NThreads + 1 : ActStep(t) \/ RetStep(t)
        \/ DestroyStep \/ JoinStep \/ DropStep \/ (Over /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
SpecInit == Init /\ [][FALSE]_vars
\* an owned object is alive; an object waiting for its destruction is neither owned nor destroyed
Alive == \A o \in s.dead : ~Owned(s, o)
Waiting == \A p \in s.due : ~Owned(s, p[1]) /\ p[1] \notin s.dead
OneDue == \A p \in s.due : \A q \in s.due : p[1] = q[1] => p = q
\* who owned an object and does not any more waits for its destruction or is past it
Accounted == \A o \in 1..s.made : Owned(s, o) \/ o \in s.dead \/ (\E p \in s.due : p[1] = o) \/ (\A t \in 1..NThreads : init[t][1] # o /\ init[t][2] # o)
NoRevival == [][\A o \in 1..s.made : ~Owned(s, o) => ~Owned(s', o)]_vars
Complete == Over => s.dead \cup {o \in 1..s.made : \A t \in 1..NThreads : init[t][1] # o /\ init[t][2] # o} = 1..s.made
EmitTest == Emit => PrintT("T:" \o ToJson([init |-> init, prog |-> prog, keep |-> keep]))
=============================================================================
