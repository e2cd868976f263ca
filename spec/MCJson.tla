------------------------------- MODULE MCJson -------------------------------
(* The decoder of JsonText against a declarative grammar on all short token sequences, its number syntax against the      *)
(* regular expression of RFC 8259 on all short character sequences, and print/parse laws on all small trees.              *)
(* Every explored text is emitted as an implementation test.                                                              *)
EXTENDS JsonText, TLC, Json
CONSTANTS MaxTok, MaxNum, MaxStr, Depth, Emit
VARIABLES kind, x
vars == <<kind, x>>
Toks == {"{", "}", "[", "]", ":", ",", "s", "n"}
TokText(k) == CASE k = "{" -> <<123>> [] k = "}" -> <<125>> [] k = "[" -> <<91>> [] k = "]" -> <<93>> [] k = ":" -> <<58>> [] k = "," -> <<44>>
                [] k = "s" -> <<34, 97, 34>> [] k = "n" -> <<110, 117, 108, 108>>
NumAlpha == {43, 45, 46, 48, 49, 101}
StrAlpha == {34, 92, 47, 98, 117, 100, 56, 48, 233}

Small0 == {Null, Bool(TRUE), IntV(TRUE, <<1>>), FltV(FALSE, 1500000, 0), StrV(<<34, 92, 1>>)}
Keys == {<<>>, <<34>>}
Trees(d) == LET RECURSIVE Tr(_)
                Tr(k) == IF k = 0 THEN Small0
                         ELSE LET S == Tr(k - 1) IN
                              S \cup {ArrV(<<>>)} \cup {ArrV(<<a>>) : a \in S} \cup {ArrV(<<a, b>>) : a \in Small0, b \in S}
                                \cup {ObjV(<<>>, <<>>)} \cup {ObjV(<<k1>>, <<a>>) : k1 \in Keys, a \in S}
                                \cup {ObjV(<<<<>>, <<34>>>>, <<a, b>>) : a \in S, b \in Small0}
            IN Tr(d)

Init == \/ kind \in {"tok", "num", "str"} /\ x = <<>>
        \/ kind = "tree" /\ x \in Trees(Depth)
Next == /\ \/ kind = "tok" /\ Len(x) < MaxTok /\ \E c \in Toks : x' = Append(x, c)
           \/ kind = "num" /\ Len(x) < MaxNum /\ \E c \in NumAlpha : x' = Append(x, c)
           \/ kind = "str" /\ Len(x) < MaxStr /\ \E c \in StrAlpha : x' = Append(x, c)
        /\ UNCHANGED kind
Spec == Init /\ [][Next]_vars

\* declarative grammar over tokens
RECURSIVE IsV(_)
RECURSIVE IsElems(_)
RECURSIVE IsMembers(_)
IsMember(q) == Len(q) >= 3 /\ q[1] = "s" /\ q[2] = ":" /\ IsV(SubSeq(q, 3, Len(q)))
IsElems(q) == IsV(q) \/ \E k \in 2..(Len(q) - 1) : q[k] = "," /\ IsV(SubSeq(q, 1, k - 1)) /\ IsElems(SubSeq(q, k + 1, Len(q)))
IsMembers(q) == IsMember(q) \/ \E k \in 2..(Len(q) - 1) : q[k] = "," /\ IsMember(SubSeq(q, 1, k - 1)) /\ IsMembers(SubSeq(q, k + 1, Len(q)))
IsV(q) == \/ q = <<"s">> \/ q = <<"n">>
          \/ Len(q) >= 2 /\ q[1] = "[" /\ q[Len(q)] = "]" /\ (Len(q) = 2 \/ IsElems(SubSeq(q, 2, Len(q) - 1)))
          \/ Len(q) >= 2 /\ q[1] = "{" /\ q[Len(q)] = "}" /\ (Len(q) = 2 \/ IsMembers(SubSeq(q, 2, Len(q) - 1)))
\* with a blank between any two tokens
Spaced(q) == Cat([k \in 1..Len(q) |-> <<IF k % 2 = 0 THEN 32 ELSE 9>> \o TokText(q[k])]) \o <<10>>
TokLaw == kind = "tok" =>
  LET r == ParseAny(Cat([k \in 1..Len(x) |-> TokText(x[k])])) IN
  /\ r.st \in {"ok", "bad"}
  /\ (r.st = "ok") = IsV(x)
  /\ r.st = "ok" => /\ WellFormed(r.v) /\ ParseAny(Printed(r.v, FALSE, 0, 0)).v = r.v
                    /\ ParseAny(Spaced(x)) = [r EXCEPT !.i = ParseAny(Spaced(x)).i]
  /\ ParseDoc(Spaced(x)).st = (IF IsV(x) /\ x[1] = "{" THEN "ok" ELSE "bad")

\* number = [ minus ] int [ frac ] [ exp ] of RFC 8259
AllDig(q) == q # <<>> /\ \A k \in 1..Len(q) : q[k] \in {48, 49}
IsInt(q) == q = <<48>> \/ (AllDig(q) /\ q[1] = 49)
IsExp(q) == q = <<>> \/ (q[1] = 101 /\ (AllDig(Tail(q)) \/ (Len(q) >= 3 /\ q[2] \in {43, 45} /\ AllDig(SubSeq(q, 3, Len(q))))))
IsFrac(q) == q = <<>> \/ (q[1] = 46 /\ AllDig(Tail(q)))
IsUNum(q) == \E a \in 1..Len(q) : \E b \in a..Len(q) :
               IsInt(SubSeq(q, 1, a)) /\ IsFrac(SubSeq(q, a + 1, b)) /\ IsExp(SubSeq(q, b + 1, Len(q)))
IsNum(q) == IF q # <<>> /\ q[1] = 45 THEN IsUNum(Tail(q)) ELSE IsUNum(q)
NumDoc(q) == <<91>> \o q \o <<93>>
NumLaw == kind = "num" /\ x # <<>> =>
  LET r == ParseAny(NumDoc(x)) IN
  /\ r.st = "ok" => IsNum(x)
  /\ IsNum(x) => r.st = "ok" \/ (\E k \in 1..Len(x) : x[k] = 101)      \* (exponents may leave the range)
  /\ r.st = "ok" => Same(ParseAny(Printed(r.v, FALSE, 0, 0)).v, r.v, 0)
  /\ r.st = "ok" /\ r.v.a[1].t = "int" => ~\E k \in 1..Len(x) : x[k] \in {46, 101}

\* strings: what a string denotes, printed and read again, is the same; the shortest printable form has no raw quotation mark
StrDoc(q) == <<123, 34>> \o q \o <<34, 58, 48, 125>>
StrLaw == kind = "str" =>
  LET r == ParseDoc(StrDoc(x)) IN
  r.st = "ok" => /\ Len(r.v.k) >= 1 /\ ParseDoc(Printed(r.v, TRUE, 3, 0)).v = r.v
                 /\ (\A k \in 1..Len(x) : x[k] # 92) => (r.v.k = <<x>>) = (\A k \in 1..Len(x) : x[k] # 34)

TreeLaw == kind = "tree" =>
  /\ WellFormed(x)
  /\ LET p == Printed(x, FALSE, 0, 0) q == Printed(x, TRUE, 2, 0) IN
     /\ ParseAny(p).st = "ok" /\ ParseAny(p).v = x
     /\ ParseAny(q).st = "ok" /\ ParseAny(q).v = x
     /\ Dense(q) = p
     /\ Same(x, x, 0)
EmitTest == IF Emit THEN PrintT("T:" \o ToJson([k |-> kind', x |-> IF kind' = "tok" THEN Cat([j \in 1..Len(x') |-> TokText(x'[j])]) ELSE x'])) ELSE TRUE
=============================================================================
