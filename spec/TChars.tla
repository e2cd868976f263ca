------------------------------- MODULE TChars -------------------------------
(* Recorded tables (over all code points) and case mapped texts are those of Chars. *)
EXTENDS Chars, SequencesExt, Json, IOUtils, TLC

Hist == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES h, i
vars == <<h, i>>
E == Hist[h][i]
TInit == h \in 1..Len(Hist) /\ i = 1
SetOf(q) == {q[k] : k \in 1..Len(q)}
Map == E.op = "map" /\ SetOf(E.pairs) = (IF E.fn = "upper" THEN UpMap ELSE LowMap)
Cls == /\ E.op = "class"
       /\ SetOf(E.space) = Spaces
       /\ SetOf(E.digit) = Digits
       /\ UpLetters \subseteq SetOf(E.upper) /\ SetOf(E.upper) \subseteq Dom(LowMap)
       /\ LowLetters \subseteq SetOf(E.lower) /\ SetOf(E.lower) \subseteq Dom(UpMap)
       /\ SetOf(E.upper) \cap SetOf(E.lower) = {}
       /\ SetOf(E.letter) = SetOf(E.upper) \cup SetOf(E.lower)
       /\ SetOf(E.values) = {<<c, c - 48>> : c \in 48..57}
Str == /\ E.op = "str"
       /\ E.out = [k \in 1..Len(E.t) |-> Image(IF E.fn = "upper" THEN UpMap ELSE LowMap, E.t[k])]
       /\ E.left = E.t
Next == \/ i <= Len(Hist[h]) /\ ((Map \/ Cls \/ Str) = TRUE) /\ i' = i + 1 /\ UNCHANGED h
        \/ i > Len(Hist[h]) /\ UNCHANGED vars
Spec == TInit /\ [][Next]_vars
=============================================================================
