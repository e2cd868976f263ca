------------------------------ MODULE MCFiles -------------------------------
(* All short histories over small files; laws of reading line by line. *)
EXTENDS Files, FiniteSets, TLC, Json
CONSTANTS Texts, MaxLen, Delims, Emit
MCTexts == {<<>>, <<7>>, <<10, 7>>}
VARIABLES s, hist, log      \* log: everything written to each path since it was erased
vars == <<s, hist, log>>
Init == s = S0 /\ hist = <<>> /\ log = [p \in 1..Paths |-> <<>>]
Do(e) == /\ Allowed(s, e)
         /\ LET r == Effect(s, e) IN
            /\ \A p \in 1..Paths : Len(r.s.disk[p]) <= MaxLen
            /\ s' = r.s
            /\ hist' = Append(hist, e)
            /\ log' = IF e.op \in Writes THEN [log EXCEPT ![s.objs[e.o].path] = @ \o Text(e)]
                      ELSE IF e.op = "erase" THEN [log EXCEPT ![s.objs[e.o].path] = <<>>]
                      ELSE IF e.op = "vanish" THEN [log EXCEPT ![e.p] = <<>>] ELSE log
Next == \E o \in 1..Objects :
  \/ \E p \in 1..Paths : Do([op |-> "make", o |-> o, p |-> p])
  \/ \E b \in 1..Objects : Do([op |-> "copy", o |-> o, b |-> b])
  \/ \E op \in {"del", "open", "close", "erase", "read"} : Do([op |-> op, o |-> o])
  \/ \E op \in Writes : \E x \in Texts : Do([op |-> op, o |-> o, x |-> x])
  \/ \E d \in Delims : Do([op |-> "readLine", o |-> o, delim |-> d])
  \/ \E k \in 0..MaxLen : Do([op |-> "setPos", o |-> o, pos |-> k])
  \/ o = 1 /\ Do([op |-> "refuse", o |-> o])
  \/ o = 1 /\ \E p \in 1..Paths : Do([op |-> "vanish", o |-> o, p |-> p])
Spec == Init /\ [][Next]_vars
View == s
\* a file is exactly what was written to it, in order; positions are in range of what was there
Written == \A p \in 1..Paths : Content(s, p) = log[p]
Exists == \A o \in 1..Objects : Alive(s, o) /\ s.objs[o].open => s.disk[s.objs[o].path] # NoFile
\* reading does not change anything but the reader; nothing but erasing takes content away; others' positions never move
Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Step == LET e == hist'[Len(hist')] IN
  /\ \A p \in 1..Paths : e.op \notin {"erase", "vanish"} => Prefix(Content(s, p), Content(s', p))
  /\ e.op \in {"read", "readLine", "setPos", "close", "open"} => \A p \in 1..Paths : Content(s, p) = Content(s', p)
  /\ \A o \in 1..Objects : e.o # o => s.objs[o] = s'.objs[o]
  /\ e.op \in Writes \cup {"read", "open", "close"} => s'.objs[e.o].pos = s.objs[e.o].pos
StepLaw == [][Step]_vars
EmitTest == IF Emit THEN PrintT("T:" \o ToJson(hist')) ELSE TRUE

\* reading line by line from the start yields the pieces between delimiters, each once, and ends at the end
RECURSIVE Next1(_, _, _)
Next1(c, k, d) == IF k > Len(c) \/ c[k] = d THEN k ELSE Next1(c, k + 1, d)
RECURSIVE Pieces(_, _), ReadAll(_, _, _)
Pieces(c, d) == LET k == Next1(c, 1, d) IN IF k > Len(c) THEN <<c>> ELSE <<SubSeq(c, 1, k - 1)>> \o Pieces(SubSeq(c, k + 1, Len(c)), d)
ReadAll(c, pos, d) == LET l == LineAt(c, pos, d) IN IF l[3] THEN <<l[1]>> ELSE <<l[1]>> \o ReadAll(c, l[2], d)
Alphabet == {7, 8, 10}
ASSUME \A n \in 0..5 : \A c \in [1..n -> Alphabet] : \A d \in {8, 10} :
         /\ ReadAll(c, 0, d) = Pieces(c, d)
         /\ \A pos \in 0..6 : LET l == LineAt(c, pos, d) IN
              /\ l[2] >= pos /\ \A k \in 1..Len(l[1]) : l[1][k] # d
              /\ (~l[3] => l[2] = pos + Len(l[1]) + 1 /\ c[l[2]] = d)
              /\ (l[3] => l[2] >= n /\ Len(l[1]) = Max(n - pos, 0))
=============================================================================
