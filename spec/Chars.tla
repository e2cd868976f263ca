-------------------------------- MODULE Chars --------------------------------
(* Characters: case mapping, letters, white space and decimal digits of the supported scripts. *)
EXTENDS Integers, Sequences, FiniteSets

\* regular pairs: lower case letters lo..hi have their upper case letter at distance d
Pairs == { <<97, 122, -32>>,                                      \* ASCII
           <<945, 961, -32>>, <<963, 969, -32>>,                  \* Greek (final sigma has no upper case letter of its own)
           <<1072, 1103, -32>>,                                   \* Cyrillic
           <<7936, 7943, 8>>, <<7952, 7957, 8>>, <<7968, 7975, 8>>, <<7984, 7991, 8>>, <<8000, 8005, 8>>, <<8032, 8039, 8>>,
           <<8048, 8049, 74>>, <<8050, 8053, 86>>, <<8054, 8055, 100>>, <<8056, 8057, 128>>, <<8058, 8059, 112>>, <<8060, 8061, 126>>,
           <<8112, 8113, 8>>, <<8144, 8145, 8>>, <<8160, 8161, 8>>, <<8165, 8165, 7>> }
\* Latin Extended-A: alternating upper, lower
Alternating == { <<256, 303>>, <<306, 311>>, <<313, 328>>, <<330, 375>> }
\* documented one way cases: sharp s, dotless i, n preceded by apostrophe; dotted I, Kelvin, Angstrom
UpSpecial == { <<223, 7838>>, <<305, 73>>, <<329, 700>> }
LowSpecial == { <<7838, 223>>, <<304, 105>>, <<8490, 107>>, <<8491, 229>> }

Regular == UNION {{<<c, c + p[3]>> : c \in p[1]..p[2]} : p \in Pairs}
           \cup UNION {{<<c, c - 1>> : c \in {x \in a[1]..a[2] : (x - a[1]) % 2 = 1}} : a \in Alternating}
Swap(S) == {<<p[2], p[1]>> : p \in S}
UpMap == Regular \cup UpSpecial          \* code points that change, with their image
LowMap == Swap(Regular) \cup LowSpecial
Image(M, c) == IF \E p \in M : p[1] = c THEN (CHOOSE p \in M : p[1] = c)[2] ELSE c
Dom(M) == {p[1] : p \in M}

\* the letters that are documented to be reported in their case; more may be, as long as the case mapping changes them
R(lo, hi) == lo..hi
LowLetters == {223, 305, 329} \cup R(97, 122) \cup R(1072, 1103) \cup R(945, 961) \cup R(963, 969) \cup R(7936, 7943) \cup R(7952, 7957)
              \cup R(7968, 7975) \cup R(7984, 7991) \cup R(8000, 8005) \cup R(8032, 8039) \cup R(8048, 8061)
UpLetters == {7838, 304, 8490, 8491} \cup R(65, 90) \cup R(1040, 1071) \cup R(913, 929) \cup R(931, 937) \cup R(7944, 7951) \cup R(7960, 7965)
             \cup R(7976, 7983) \cup R(7992, 7999) \cup R(8008, 8013) \cup R(8040, 8047) \cup R(8120, 8123) \cup R(8136, 8139) \cup R(8152, 8155)
             \cup R(8168, 8172)

Spaces == R(9, 13) \cup {32, 133, 160, 5760} \cup R(8192, 8202) \cup {8232, 8233, 8239, 8287, 12288}
Zeros == {48, 1632, 1776, 1984, 2406, 2534, 2662, 2790, 2918, 3046, 3174, 3302, 3430, 3664, 3792, 3872, 4160, 4240, 6112, 6160, 6470, 6608,
          6784, 6800, 6992, 7088, 7232, 7248, 42528, 43216, 43264, 43472, 43504, 43600, 44016, 65296}
Digits == UNION {R(z, z + 9) : z \in Zeros}
=============================================================================
