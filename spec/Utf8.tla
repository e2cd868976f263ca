-------------------------------- MODULE Utf8 --------------------------------
(* UTF-8: encoding of code points and the structure of byte sequences. *)
EXTENDS Integers, Sequences, SequencesExt

IsScalar(c) == c \in 0..55295 \/ c \in 57344..1114111

Encode(c) ==
  IF c < 128 THEN <<c>>
  ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>>
  ELSE IF c < 65536 THEN <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
  ELSE <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
EncodeText(t) == FlattenSeq([k \in 1..Len(t) |-> Encode(t[k])])

\* number of bytes announced by a lead byte, 0 if it cannot lead
LeadLen(b) == IF b < 128 THEN 1 ELSE IF b \in 192..223 THEN 2 ELSE IF b \in 224..239 THEN 3 ELSE IF b \in 240..247 THEN 4 ELSE 0
IsCont(b) == b \in 128..191

\* structurally a text: lead bytes followed by exactly their continuation bytes
IsStructured(bs) ==
  LET n == Len(bs)
      \* st: continuation bytes still expected, -1 after an error
      step(st, k) == IF st < 0 THEN -1
                     ELSE IF st > 0 THEN (IF IsCont(bs[k]) THEN st - 1 ELSE -1)
                     ELSE LeadLen(bs[k]) - 1
  IN FoldLeft(step, 0, [k \in 1..n |-> k]) = 0

LeadBits(b) == CASE LeadLen(b) = 1 -> b [] LeadLen(b) = 2 -> b % 32 [] LeadLen(b) = 3 -> b % 16 [] OTHER -> b % 8
\* the code points of a structured byte sequence
Decode(bs) ==
  LET step(acc, k) == IF IsCont(bs[k]) THEN [acc EXCEPT ![Len(acc)] = @ * 64 + (bs[k] % 64)] ELSE Append(acc, LeadBits(bs[k]))
  IN FoldLeft(step, <<>>, [k \in 1..Len(bs) |-> k])
\* ... that is the encoding of what it decodes to: no overlong form, no surrogate, nothing above U+10FFFF
IsWellFormed(bs) == IsStructured(bs) /\ LET t == Decode(bs) IN EncodeText(t) = bs /\ \A k \in 1..Len(t) : IsScalar(t[k])

\* the same, character by character from where each one starts (for long sequences)
Starts(bs) == SelectSeq([k \in 1..Len(bs) |-> k], LAMBDA k : ~IsCont(bs[k]))
CodeAt(bs, k) ==
  LET c(j) == bs[k + j] % 64 IN
  CASE LeadLen(bs[k]) = 1 -> bs[k]
    [] LeadLen(bs[k]) = 2 -> LeadBits(bs[k]) * 64 + c(1)
    [] LeadLen(bs[k]) = 3 -> LeadBits(bs[k]) * 4096 + c(1) * 64 + c(2)
    [] OTHER -> LeadBits(bs[k]) * 262144 + c(1) * 4096 + c(2) * 64 + c(3)
DecodeAt(bs) == LET st == Starts(bs) IN [j \in 1..Len(st) |-> CodeAt(bs, st[j])]
IsWellFormedAt(bs) ==
  IsStructured(bs) /\ LET st == Starts(bs) IN
     \A j \in 1..Len(st) : LET c == CodeAt(bs, st[j]) IN IsScalar(c) /\ Encode(c) = SubSeq(bs, st[j], st[j] + LeadLen(bs[st[j]]) - 1)
=============================================================================
