-------------------------------- MODULE Text --------------------------------
(* Texts as sequences of code points: slicing, searching, order. *)
EXTENDS Integers, Sequences, SequencesExt

NPos == -1
Min2(x, y) == IF x <= y THEN x ELSE y
Idx(n) == [k \in 1..n |-> k]

\* characters pos .. pos + n - 1 (counted from 0), clipped at the end
Slice(t, pos, n) == SubSeq(t, pos + 1, Min2(Len(t), pos + n))
From(t, pos) == SubSeq(t, pos + 1, Len(t))
Insert(t, pos, u) == SubSeq(t, 1, pos) \o u \o From(t, pos)
Times(n, c) == [k \in 1..n |-> c]

\* text n occurs in t at character index k
Occurs(t, n, k) == k >= 0 /\ k + Len(n) <= Len(t) /\ SubSeq(t, k + 1, k + Len(n)) = n
HasText(t, n) == \E k \in 0..Len(t) : Occurs(t, n, k)
StartsWith(t, n) == Occurs(t, n, 0)
EndsWith(t, n) == Occurs(t, n, Len(t) - Len(n))

Least(S) == CHOOSE x \in S : \A y \in S : x <= y
Greatest(S) == CHOOSE x \in S : \A y \in S : x >= y

\* first occurrence at or after pos
Find(t, n, pos) == LET S == {k \in pos..Len(t) : Occurs(t, n, k)} IN IF S = {} THEN NPos ELSE Least(S)
\* last occurrence whose last character is at or before pos (NPos: anywhere)
ReverseFind(t, n, pos) ==
  LET S == {k \in 0..Len(t) : Occurs(t, n, k) /\ (pos = NPos \/ k + Len(n) - 1 <= pos)} IN IF S = {} THEN NPos ELSE Greatest(S)

\* order of the code point sequences: -1, 0, 1
TCmp(t, u) ==
  LET d == {k \in 1..Min2(Len(t), Len(u)) : t[k] # u[k]}
  IN IF d # {} THEN (IF t[Least(d)] < u[Least(d)] THEN -1 ELSE 1)
     ELSE IF Len(t) < Len(u) THEN -1 ELSE IF Len(t) > Len(u) THEN 1 ELSE 0

Rep(t, n) == FlattenSeq([k \in 1..n |-> t])
=============================================================================
