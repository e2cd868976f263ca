---------------------------- MODULE MCTextUtil ----------------------------
(* Laws of the text utilities on all short texts; every pair of texts is emitted as implementation test for searching, every text *)
(* over the escape alphabet for unescaping.                                                                                       *)
EXTENDS TextUtil, TLC, Json
CONSTANTS MaxT, MaxP, MaxE, Emit
VARIABLES t, p, e
vars == <<t, p, e>>
Init == t = <<>> /\ p = <<>> /\ e = <<>>
Two == {97, 98}
Esc == {BS, 117, 110, 52, 49, 34, 120, 32}
Next == \/ e = <<>> /\ p = <<>> /\ Len(t) < MaxT /\ \E c \in Two : t' = Append(t, c) /\ UNCHANGED <<p, e>>
        \/ e = <<>> /\ Len(p) < MaxP /\ \E c \in Two : p' = Append(p, c) /\ UNCHANGED <<t, e>>
        \/ t = <<>> /\ p = <<>> /\ Len(e) < MaxE /\ \E c \in Esc : e' = Append(e, c) /\ UNCHANGED <<t, p>>
Spec == Init /\ [][Next]_vars
\* all splittings the definition allows, and the obvious one
RECURSIVE Cut(_, _, _)
Cut(u, d, acc) == IF \E k \in 1..Len(u) : u[k] = d
                  THEN LET k == Least({j \in 1..Len(u) : u[j] = d}) IN Cut(From(u, k), d, Append(acc, SubSeq(u, 1, k - 1)))
                  ELSE Append(acc, u)
Laws == /\ Kmp(p, t) = HasText(t, p)
        /\ IsSplit(t, 97, Cut(t, 97, <<>>))
        /\ t # <<>> /\ t[Len(t)] = 97 => IsSplit(t, 97, Front(Cut(t, 97, <<>>)))
        /\ Rep(t, 0) = <<>> /\ Rep(t, 1) = t /\ Rep(t, 3) = t \o t \o t
EscLaws == LET u == Unescaped(e) IN
        /\ Len(u) <= Len(e)
        /\ (\A k \in 1..Len(e) : e[k] # BS) => u = e
        \* escaping every backslash makes unescaping the identity
        /\ Unescaped(FlattenSeq([k \in 1..Len(e) |-> IF e[k] = BS THEN <<BS, BS>> ELSE <<e[k]>>])) = e
        /\ FirstNonSpace(e) <= Len(e) /\ (FirstNonSpace(e) = Len(e)) = (LastNonSpace(e) = Len(e))
EmitTest == IF Emit THEN PrintT("T:" \o ToJson([t |-> t', p |-> p', e |-> e'])) ELSE TRUE
=============================================================================
