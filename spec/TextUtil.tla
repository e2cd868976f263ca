------------------------------ MODULE TextUtil ------------------------------
(* The free text utilities. *)
EXTENDS Text, Chars

\* concatenation of pieces with d between them
Joined(p, d) == FlattenSeq([k \in 1..Len(p) |-> IF k = 1 THEN p[k] ELSE <<d>> \o p[k]])
\* p is a splitting of t at d: the pieces are free of d and give t back, up to one trailing delimiter
IsSplit(t, d, p) == /\ \A k \in 1..Len(p) : \A j \in 1..Len(p[k]) : p[k][j] # d
                    /\ Joined(p, d) = t \/ Append(Joined(p, d), d) = t

FirstNonSpace(t) == LET S == {k \in 1..Len(t) : t[k] \notin Spaces} IN IF S = {} THEN Len(t) ELSE Least(S) - 1
LastNonSpace(t) == LET S == {k \in 1..Len(t) : t[k] \notin Spaces} IN IF S = {} THEN Len(t) ELSE Greatest(S) - 1
AllDigits(t) == t # <<>> /\ \A k \in 1..Len(t) : t[k] \in Digits

\* backslash escapes
BS == 92
Known == {34, 63, 92, 47, 97, 98, 102, 110, 114, 116, 118}     \* " ? \ / a b f n r t v
Meaning(c) == CASE c = 97 -> 7 [] c = 98 -> 8 [] c = 102 -> 12 [] c = 110 -> 10 [] c = 114 -> 13 [] c = 116 -> 9 [] c = 118 -> 11 [] OTHER -> c
Hex(c) == CASE c \in 48..57 -> c - 48 [] c \in 65..70 -> c - 55 [] c \in 97..102 -> c - 87 [] OTHER -> -1
RECURSIVE UnescFrom(_, _, _)
UnescFrom(t, k, acc) ==
  IF k > Len(t) THEN acc
  ELSE IF t[k] # BS \/ k = Len(t) THEN UnescFrom(t, k + 1, Append(acc, t[k]))
  ELSE LET c == t[k + 1] IN
       IF c \in Known THEN UnescFrom(t, k + 2, Append(acc, Meaning(c)))
       ELSE IF c = 117 /\ k + 5 <= Len(t) /\ \A j \in 2..5 : Hex(t[k + j]) >= 0
       THEN UnescFrom(t, k + 6, Append(acc, ((Hex(t[k + 2]) * 16 + Hex(t[k + 3])) * 16 + Hex(t[k + 4])) * 16 + Hex(t[k + 5])))
       ELSE UnescFrom(t, k + 2, acc \o <<BS, c>>)
Unescaped(t) == UnescFrom(t, 1, <<>>)

\* Knuth-Morris-Pratt: the failure function and the scan, for comparison with plain search
Border(p, n) == Greatest({-1} \cup {k \in 0..(n - 1) : SubSeq(p, 1, k) = SubSeq(p, n - k + 1, n)})   \* longest proper border of the first n
RECURSIVE Fall(_, _, _)
Fall(p, j, c) == IF j >= 0 /\ p[j + 1] # c THEN Fall(p, Border(p, j), c) ELSE j
RECURSIVE Scan(_, _, _, _)
Scan(p, t, k, j) == IF j = Len(p) THEN TRUE ELSE IF k > Len(t) THEN FALSE ELSE Scan(p, t, k + 1, Fall(p, j, t[k]) + 1)
Kmp(p, t) == p = <<>> \/ Scan(p, t, 1, 0)
=============================================================================
