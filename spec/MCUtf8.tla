------------------------------- MODULE MCUtf8 -------------------------------
(* All byte sequences over the boundary bytes of every class: structure, decoding and encoding agree. *)
EXTENDS Utf8, TLC, Json
CONSTANTS MaxLen, Emit
VARIABLE bs
\* one or two bytes of every class of lead and continuation bytes
Alphabet == {1, 65, 127, 128, 191, 192, 194, 223, 224, 225, 239, 240, 241, 244, 247, 248, 255}
Init == bs = <<>>
Next == Len(bs) < MaxLen /\ \E b \in Alphabet : bs' = Append(bs, b)
Spec == Init /\ [][Next]_bs

\* the same language as a context-free definition: concatenation of characters
RECURSIVE IsChars(_)
IsChars(s) == s = <<>> \/ (LET n == LeadLen(s[1]) IN n > 0 /\ n <= Len(s) /\ (\A k \in 2..n : IsCont(s[k])) /\ IsChars(SubSeq(s, n + 1, Len(s))))
Same == IsStructured(bs) <=> IsChars(bs)
Round == IsWellFormed(bs) => EncodeText(Decode(bs)) = bs
AtSame == IsWellFormedAt(bs) = IsWellFormed(bs) /\ (IsStructured(bs) => DecodeAt(bs) = Decode(bs))
Prefix == \* a structured text cut inside a character is not structured
  (IsStructured(bs) /\ bs # <<>> /\ IsCont(bs[Len(bs)])) => ~IsStructured(SubSeq(bs, 1, Len(bs) - 1))
\* every class boundary of the code points
Points == {1, 127, 128, 2047, 2048, 4095, 4096, 55295, 57344, 65535, 65536, 262143, 262144, 1048575, 1048576, 1114111}
Codes == bs = <<>> => \A c \in Points : IsScalar(c) /\ IsWellFormed(Encode(c)) /\ Decode(Encode(c)) = <<c>> /\ (\A d \in Points : Decode(Encode(c) \o Encode(d)) = <<c, d>>)
EmitTest == IF Emit THEN PrintT("T:" \o ToJson([bs |-> bs', ok |-> IsWellFormed(bs'), st |-> IsStructured(bs')])) ELSE TRUE
=============================================================================
