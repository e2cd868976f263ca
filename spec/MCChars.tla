------------------------------ MODULE MCChars ------------------------------
(* Coherence of the character tables, character by character. *)
EXTENDS Chars
CONSTANT Top
VARIABLE c
vars == <<c>>
Init == c \in {256 * k : k \in 0..Top}
Next == c % 256 < 255 /\ c' = c + 1
Spec == Init /\ [][Next]_vars
ASSUME Tables == /\ \A p \in UpMap, q \in UpMap : p[1] = q[1] => p = q       \* functions
                 /\ \A p \in LowMap, q \in LowMap : p[1] = q[1] => p = q
                 /\ \A p \in UpMap \cup LowMap : p[1] # p[2]
                 /\ Cardinality(Regular) = Cardinality(Dom(Regular))
                 /\ \A y \in Zeros, z \in Zeros : y # z => (y - z > 9 \/ z - y > 9)
                 /\ Cardinality(Digits) = 10 * Cardinality(Zeros)
                 /\ Cardinality(Spaces) = 25
Coherent == LET u == Image(UpMap, c)
                l == Image(LowMap, c)
            IN /\ c \in UpLetters => l # c
               /\ c \in LowLetters => u # c
               /\ ~(c \in UpLetters /\ c \in LowLetters)
               /\ ~(u # c /\ l # c)                                             \* one case each
               /\ c \in Dom(Regular) => Image(LowMap, u) = c                    \* undone
               /\ Image(UpMap, u) = u /\ Image(LowMap, l) = l                   \* idempotent
               /\ ~(c \in Digits /\ (u # c \/ l # c)) /\ ~(c \in Digits /\ c \in Spaces)
=============================================================================
