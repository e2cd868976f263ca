------------------------------ MODULE MCStrings -----------------------------
(* Two strings over two characters: every transition of the edit machine (emitted as an implementation test), the laws of *)
(* editing as action properties, and the laws of searching and ordering over all pairs of small texts.                    *)
EXTENDS Strings, TLC, Json
CONSTANTS MaxLen, Emit
VARIABLES hist, last             \* path to the state; last operation with its refusal (both outside the view)
vars == <<s, hist, last>>
\* 1-byte and 3-byte characters
C == {97, 8364}
Pos == 0..(MaxLen + 1)
Texts == UNION {[1..n -> C] : n \in 0..2}
R == 1..Regs
Ops ==
  [op : {"set", "append"}, d : R, text : Texts]
  \cup [op : {"pluseq", "copy", "swap"}, d : R, a : R]
  \cup [op : {"cat"}, d : R, a : R, b : R]
  \cup [op : {"push"}, d : R, cp : C]
  \cup [op : {"appendn"}, d : R, n : {0, 2}, cp : C]
  \cup [op : {"setn"}, d : R, n : {0, 2}, cp : C]
  \cup [op : {"insert"}, d : R, pos : Pos, text : {<<>>, <<97>>, <<8364, 97>>}]
  \cup [op : {"inserts"}, d : R, pos : Pos, a : R]
  \cup [op : {"insertn"}, d : R, pos : Pos, n : {0, 2}, cp : {8364}]
  \cup [op : {"setat"}, d : R, pos : Pos, cp : C]
  \cup [op : {"at"}, d : R, pos : Pos]
  \cup [op : {"substr"}, d : R, a : R, pos : Pos, n : {0, 1, NPos}]
  \cup [op : {"clear"}, d : R]
Own == [op : {"pushown"}, d : R, pos : Pos] \cup [op : {"appendown"}, d : R, n : {2}, pos : Pos]
OwnIns == [op : {"insertown"}, d : R, pos : Pos, n : {2}, k : Pos]

Fits(t) == \A k \in R : Len(t[k]) <= MaxLen
Act(e) == /\ Do(e)
          /\ Fits(s')
          /\ last' = [e |-> e, ex |-> Effect(s, e).ex]
          /\ hist' = Append(hist, e)
MCInit == Init /\ hist = <<>> /\ last = [e |-> [op |-> "none"], ex |-> FALSE]
Next == \/ \E e \in Ops : Act(e)
        \/ \E e \in Own : e.pos < Len(s[e.d]) /\ Act(e)
        \/ \E e \in OwnIns : e.k < Len(s[e.d]) /\ e.pos <= Len(s[e.d]) /\ Act(e)
Spec == MCInit /\ [][Next]_vars
View == s

\* laws of one step
Step ==
  LET e == last'.e
      d == IF "d" \in DOMAIN e THEN e.d ELSE 1
  IN /\ last'.ex => s' = s                                               \* refused: nothing changed
     /\ \A k \in R : k # d /\ e.op # "swap" => s'[k] = s[k]              \* independence of the other strings
     /\ e.op \in {"insert", "inserts", "insertn"} /\ ~last'.ex =>        \* inserted text is found where it was inserted
          LET n == Len(s'[d]) - Len(s[d]) IN Slice(s'[d], 0, e.pos) \o From(s'[d], e.pos + n) = s[d]
     /\ e.op \in {"append", "pluseq", "push", "appendn"} => StartsWith(s'[d], s[d])
     /\ e.op \in {"at", "setat"} => (last'.ex <=> e.pos >= Len(s[d]))
StepLaws == [][Step]_vars
\* laws of search and order on the current pair of strings
Search ==
  LET t == s[1]
      n == s[2]
  IN /\ HasText(t, n) <=> Find(t, n, 0) # NPos
     /\ \A p \in 0..Len(t) : LET f == Find(t, n, p) IN f # NPos => f >= p /\ Occurs(t, n, f) /\ \A k \in p..(f - 1) : ~Occurs(t, n, k)
     /\ LET f == ReverseFind(t, n, NPos) IN (f = NPos <=> ~HasText(t, n)) /\ (f # NPos => f >= Find(t, n, 0))
     /\ \A p \in 0..Len(t) : LET f == ReverseFind(t, n, p) IN f # NPos => f + Len(n) - 1 <= p /\ \A k \in (f + 1)..(p + 1 - Len(n)) : ~Occurs(t, n, k)
     /\ StartsWith(t, n) => Find(t, n, 0) = 0
     /\ EndsWith(t, n) => ReverseFind(t, n, NPos) = Len(t) - Len(n)
     /\ (TCmp(t, n) = 0) <=> (t = n)
     /\ TCmp(t, n) = -TCmp(n, t)
     /\ StartsWith(t, n) /\ t # n => TCmp(n, t) = -1
     /\ \A u \in Texts : TCmp(t, n) <= 0 /\ TCmp(n, u) <= 0 => TCmp(t, u) <= 0
EmitTest == IF Emit THEN PrintT("T:" \o ToJson(hist')) ELSE TRUE
=============================================================================
