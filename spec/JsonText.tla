------------------------------ MODULE JsonText ------------------------------
(* JSON: the values of a document tree, the grammar of RFC 8259 as a decoder of code point sequences, and a printer. *)
(* A text has one of three verdicts: "ok" with its value, "bad" (must be refused), "open" (outside RFC 8259 but       *)
(* tolerated today - leading +, leading zeros, a missing digit beside the point, raw control characters - or without  *)
(* representable value: lone surrogates, U+0000, denormal numbers): either answer is allowed.                        *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Null == [t |-> "null"]
Bool(b) == [t |-> "bool", b |-> b]
\* integers: sign and decimal digits without leading zeros (zero: not negative, <<0>>)
IntV(n, d) == [t |-> "int", neg |-> n, d |-> d]
\* floats: m * 10^(e-6) with 10^6 <= m < 10^7, or m = 0
FltV(n, m, e) == [t |-> "flt", neg |-> n, m |-> m, e |-> e]
StrV(s) == [t |-> "str", s |-> s]
ArrV(a) == [t |-> "arr", a |-> a]
ObjV(k, v) == [t |-> "obj", k |-> k, v |-> v]

\* ---- objects are ordered maps ------------------------------------------------------------------------------
KeyAt(o, key) == LET S == {j \in 1..Len(o.k) : o.k[j] = key} IN IF S = {} THEN 0 ELSE CHOOSE j \in S : TRUE
Put(o, key, v) == LET j == KeyAt(o, key) IN IF j = 0 THEN ObjV(Append(o.k, key), Append(o.v, v)) ELSE [o EXCEPT !.v[j] = v]
Del(o, key) == LET j == KeyAt(o, key) IN
               IF j = 0 THEN o ELSE ObjV(SubSeq(o.k, 1, j - 1) \o SubSeq(o.k, j + 1, Len(o.k)), SubSeq(o.v, 1, j - 1) \o SubSeq(o.v, j + 1, Len(o.v)))

\* ---- equality up to the printed precision of floats ----------------------------------------------------------
AbsI(x) == IF x < 0 THEN -x ELSE x
\* |difference| at most tol units of the 7th digit
CloseF(a, b, tol) == \/ a.m = 0 /\ b.m = 0
                     \/ /\ a.m # 0 /\ b.m # 0 /\ a.neg = b.neg
                        /\ \/ a.e = b.e /\ AbsI(a.m - b.m) <= tol
                           \/ a.e = b.e + 1 /\ AbsI((a.m * 10) - b.m) <= 10 * tol
                           \/ b.e = a.e + 1 /\ AbsI((b.m * 10) - a.m) <= 10 * tol
RECURSIVE Same(_, _, _)
Same(a, b, tol) ==
  /\ a.t = b.t
  /\ CASE a.t = "flt" -> CloseF(a, b, tol)
       [] a.t = "arr" -> Len(a.a) = Len(b.a) /\ \A j \in 1..Len(a.a) : Same(a.a[j], b.a[j], tol)
       [] a.t = "obj" -> a.k = b.k /\ \A j \in 1..Len(a.k) : Same(a.v[j], b.v[j], tol)
       [] OTHER -> a = b
RECURSIVE WellFormed(_)
WellFormed(v) == CASE v.t = "arr" -> \A j \in 1..Len(v.a) : WellFormed(v.a[j])
                   [] v.t = "obj" -> Len(v.k) = Len(v.v) /\ Cardinality({v.k[j] : j \in 1..Len(v.k)}) = Len(v.k) /\ \A j \in 1..Len(v.v) : WellFormed(v.v[j])
                   [] OTHER -> TRUE

\* ---- decoding: positions are 1-based; a result is [st, v, i], i behind what was read ---------------------------
JSpaces == (9..13) \cup {32, 133, 160, 5760} \cup (8192..8202) \cup {8232, 8233, 8239, 8287, 12288}
At(s, i) == IF i <= Len(s) THEN s[i] ELSE -1
\* the first position from i on whose character is in S (in = TRUE) / outside of S (in = FALSE), or Len(s) + 1; looked for in windows of growing width w
First(K) == CHOOSE k \in K : \A j \in K : k <= j
RECURSIVE Seek(_, _, _, _, _)
Seek(s, i, S, in, w) ==
  LET hi == IF i + w < Len(s) THEN i + w ELSE Len(s)
      K == {k \in i..hi : (s[k] \in S) = in}
  IN IF K # {} THEN First(K) ELSE IF hi = Len(s) THEN (IF i > Len(s) THEN i ELSE Len(s) + 1) ELSE Seek(s, hi + 1, S, in, 4 * w)
Ws(s, i) == IF At(s, i) \in JSpaces THEN Seek(s, i, JSpaces, FALSE, 8) ELSE i
Res(st, v, i) == [st |-> st, v |-> v, i |-> i]
Bad(i) == Res("bad", Null, i)
Open(i) == Res("open", Null, i)
IsDig(c) == c >= 48 /\ c <= 57
HexVal(c) == IF IsDig(c) THEN c - 48 ELSE IF c >= 65 /\ c <= 70 THEN c - 55 ELSE IF c >= 97 /\ c <= 102 THEN c - 87 ELSE -1
Hex4(s, i) == IF \A k \in 0..3 : HexVal(At(s, i + k)) >= 0
              THEN (HexVal(s[i]) * 4096) + (HexVal(s[i + 1]) * 256) + (HexVal(s[i + 2]) * 16) + HexVal(s[i + 3]) ELSE -1

\* strings: i behind the opening quotation mark; v is the sequence of code points
Esc1 == [c \in {34, 92, 47, 98, 102, 110, 114, 116} |->
          CASE c = 98 -> 8 [] c = 102 -> 12 [] c = 110 -> 10 [] c = 114 -> 13 [] c = 116 -> 9 [] OTHER -> c]
NotPlain == (0..31) \cup {34, 92}
RECURSIVE PStr(_, _, _)
PStr(s, i, acc) ==
  LET c == At(s, i) IN
  CASE c = -1 -> Bad(i)
    [] c = 34 -> Res("ok", acc, i + 1)
    [] c = 92 ->
         LET d == At(s, i + 1) IN
         IF d \in DOMAIN Esc1 THEN PStr(s, i + 2, Append(acc, Esc1[d]))
         ELSE IF d # 117 THEN Bad(i)
         ELSE LET u == Hex4(s, i + 2) IN
              IF u < 0 THEN Bad(i)
              ELSE IF u = 0 THEN Open(i)
              ELSE IF u \in 55296..56319 /\ At(s, i + 6) = 92 /\ At(s, i + 7) = 117 /\ Hex4(s, i + 8) < 0 THEN Bad(i)
              ELSE IF u \in 55296..56319 /\ At(s, i + 6) = 92 /\ At(s, i + 7) = 117 /\ Hex4(s, i + 8) \in 56320..57343
                   THEN PStr(s, i + 12, Append(acc, 65536 + ((u - 55296) * 1024) + (Hex4(s, i + 8) - 56320)))
              ELSE IF u \in 55296..57343 THEN Open(i)
              ELSE PStr(s, i + 6, Append(acc, u))
    [] c # -1 /\ c < 32 -> Open(i)
    [] OTHER -> LET e == Seek(s, i, NotPlain, TRUE, 4) IN PStr(s, e, acc \o SubSeq(s, i, e - 1))

\* numbers: the maximal run of number characters
NumChars == (48..57) \cup {43, 45, 46, 69, 101}
RECURSIVE RunEnd(_, _, _)
RunEnd(s, i, S) == IF At(s, i) \in S THEN RunEnd(s, i + 1, S) ELSE i
Digs(s, i, j) == [k \in 1..(j - i) |-> s[i + k - 1] - 48]       \* digits of the positions i..j-1
RECURSIVE Strip(_)
Strip(d) == IF Len(d) > 1 /\ d[1] = 0 THEN Strip(Tail(d)) ELSE d
RECURSIVE LessEqDigs(_, _, _)
LessEqDigs(a, b, k) == IF k > Len(a) THEN TRUE ELSE IF a[k] # b[k] THEN a[k] < b[k] ELSE LessEqDigs(a, b, k + 1)
DigsLe(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ LessEqDigs(a, b, 1))
MaxPos == <<9, 2, 2, 3, 3, 7, 2, 0, 3, 6, 8, 5, 4, 7, 7, 5, 8, 0, 7>>
MaxNeg == <<9, 2, 2, 3, 3, 7, 2, 0, 3, 6, 8, 5, 4, 7, 7, 5, 8, 0, 8>>
RECURSIVE NumOf(_, _)
NumOf(d, acc) == IF d = <<>> THEN acc ELSE IF acc > 99999 THEN 999999 ELSE NumOf(Tail(d), (acc * 10) + d[1])
\* n: record [neg, ip, fp (digit sequences), hasf, hase, eneg, ed] or none
Shape(s, i, j) ==
  LET a == IF At(s, i) \in {43, 45} THEN i + 1 ELSE i
      b == RunEnd(s, a, 48..57)
      hasf == b < j /\ s[b] = 46
      c == IF hasf THEN RunEnd(s, b + 1, 48..57) ELSE b
      hase == c < j /\ s[c] \in {69, 101}
      d == IF hase THEN (IF At(s, c + 1) \in {43, 45} THEN c + 2 ELSE c + 1) ELSE c
      e == IF hase THEN RunEnd(s, d, 48..57) ELSE c
      ip == Digs(s, a, b)
      fp == IF hasf THEN Digs(s, b + 1, c) ELSE <<>>
  IN [whole |-> e = j /\ (ip # <<>> \/ fp # <<>>) /\ (hase => e > d),
      strict |-> At(s, i) # 43 /\ ip # <<>> /\ (Len(ip) = 1 \/ ip[1] # 0) /\ (hasf => fp # <<>>),
      neg |-> At(s, i) = 45, ip |-> ip, fp |-> fp, float |-> hasf \/ hase, eneg |-> hase /\ At(s, c + 1) = 45,
      ed |-> IF hase THEN Digs(s, d, e) ELSE <<>>]
RECURSIVE Zeros(_, _)
Zeros(d, k) == IF k <= Len(d) /\ d[k] = 0 THEN Zeros(d, k + 1) ELSE k - 1
FloatOf(n) ==   \* [st, v]
  LET all == n.ip \o n.fp
      z == Zeros(all, 1)
      x == NumOf(n.ed, 0)
      e == Len(n.ip) - 1 - z + (IF n.eneg THEN -x ELSE x)
      dig(k) == IF z + k <= Len(all) THEN all[z + k] ELSE 0
      m == ((((((((((((dig(1) * 10) + dig(2)) * 10) + dig(3)) * 10) + dig(4)) * 10) + dig(5)) * 10) + dig(6)) * 10) + dig(7))
  IN IF z = Len(all) THEN [st |-> "ok", v |-> FltV(n.neg, 0, 0)]
     ELSE IF e > 38 \/ (e = 38 /\ m > 3402823) THEN [st |-> IF e = 38 /\ m = 3402823 THEN "open" ELSE "bad", v |-> Null]
     ELSE IF e = 38 /\ m = 3402823 THEN [st |-> "open", v |-> Null]
     ELSE IF e < -37 THEN [st |-> "open", v |-> Null]
     ELSE [st |-> "ok", v |-> FltV(n.neg, m, e)]
PNum(s, i) ==
  LET j == RunEnd(s, i, NumChars)
      n == Shape(s, i, j)
  IN IF ~n.whole THEN Bad(i)
     ELSE IF ~n.strict THEN Open(i)
     ELSE IF n.float THEN LET f == FloatOf(n) IN Res(f.st, f.v, j)
     ELSE IF DigsLe(n.ip, IF n.neg THEN MaxNeg ELSE MaxPos) THEN Res("ok", IntV(n.neg /\ n.ip # <<0>>, n.ip), j)
     ELSE Bad(i)

Lit(s, i, w) == \A k \in 1..Len(w) : At(s, i + k - 1) = w[k]
TrueW == <<116, 114, 117, 101>>
FalseW == <<102, 97, 108, 115, 101>>
NullW == <<110, 117, 108, 108>>

RECURSIVE PVal(_, _)
RECURSIVE PArr(_, _, _)
RECURSIVE PObj(_, _, _)
\* a value whose first character is at i
PVal(s, i) ==
  LET c == At(s, i) IN
  CASE c = 34 -> LET r == PStr(s, i + 1, <<>>) IN IF r.st = "ok" THEN Res("ok", StrV(r.v), r.i) ELSE r
    [] c = 123 -> LET j == Ws(s, i + 1) IN IF At(s, j) = 125 THEN Res("ok", ObjV(<<>>, <<>>), j + 1) ELSE PObj(s, j, ObjV(<<>>, <<>>))
    [] c = 91 -> LET j == Ws(s, i + 1) IN IF At(s, j) = 93 THEN Res("ok", ArrV(<<>>), j + 1) ELSE PArr(s, j, <<>>)
    [] c \in NumChars \ {46, 69, 101} -> PNum(s, i)
    [] OTHER -> IF Lit(s, i, TrueW) THEN Res("ok", Bool(TRUE), i + 4)
                ELSE IF Lit(s, i, FalseW) THEN Res("ok", Bool(FALSE), i + 5)
                ELSE IF Lit(s, i, NullW) THEN Res("ok", Null, i + 4)
                ELSE Bad(i)
\* an element is due at i
PArr(s, i, acc) ==
  LET r == PVal(s, i) IN
  IF r.st # "ok" THEN r
  ELSE LET j == Ws(s, r.i) IN
       CASE At(s, j) = 44 -> PArr(s, Ws(s, j + 1), Append(acc, r.v))
         [] At(s, j) = 93 -> Res("ok", ArrV(Append(acc, r.v)), j + 1)
         [] OTHER -> Bad(j)
\* a member is due at i
PObj(s, i, acc) ==
  IF At(s, i) # 34 THEN Bad(i)
  ELSE LET k == PStr(s, i + 1, <<>>) IN
  IF k.st # "ok" THEN k
  ELSE LET c == Ws(s, k.i) IN
  IF At(s, c) # 58 THEN Bad(c)
  ELSE LET r == PVal(s, Ws(s, c + 1)) IN
  IF r.st # "ok" THEN r
  ELSE LET o == Put(acc, k.v, r.v)
           j == Ws(s, r.i) IN
       CASE At(s, j) = 44 -> PObj(s, Ws(s, j + 1), o)
         [] At(s, j) = 125 -> Res("ok", o, j + 1)
         [] OTHER -> Bad(j)

\* a whole text: any value / an object
ParseAny(s) == LET r == PVal(s, Ws(s, 1)) IN IF r.st = "ok" /\ Ws(s, r.i) <= Len(s) THEN Bad(r.i) ELSE r
ParseDoc(s) == LET i == Ws(s, 1) IN IF At(s, i) # 123 THEN Bad(i) ELSE ParseAny(s)

\* the text without the white space outside of its strings (for valid texts); at: "out", "in" a string, "esc" behind a backslash in it
Dense(s) == FoldLeft(LAMBDA st, c : CASE st.at = "out" -> IF c \in JSpaces THEN st ELSE [at |-> IF c = 34 THEN "in" ELSE "out", a |-> Append(st.a, c)]
                                      [] st.at = "in" -> [at |-> CASE c = 34 -> "out" [] c = 92 -> "esc" [] OTHER -> "in", a |-> Append(st.a, c)]
                                      [] OTHER -> [at |-> "in", a |-> Append(st.a, c)], [at |-> "out", a |-> <<>>], s).a

\* ---- a printer, to state the laws -------------------------------------------------------------------------
HexDig(k) == IF k < 10 THEN 48 + k ELSE 87 + k
PrintChar(c) == CASE c = 34 -> <<92, 34>> [] c = 92 -> <<92, 92>> [] c = 8 -> <<92, 98>> [] c = 12 -> <<92, 102>> [] c = 10 -> <<92, 110>>
                  [] c = 13 -> <<92, 114>> [] c = 9 -> <<92, 116>>
                  [] OTHER -> IF c < 32 THEN <<92, 117, 48, 48, HexDig(c \div 16), HexDig(c % 16)>> ELSE <<c>>
RECURSIVE Cat(_)
Cat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Cat(Tail(q))
PrintStr(s) == <<34>> \o Cat([k \in 1..Len(s) |-> PrintChar(s[k])]) \o <<34>>
Sp(n) == [k \in 1..n |-> 32]
DigText(d) == [k \in 1..Len(d) |-> 48 + d[k]]
RECURSIVE NatText(_)
NatText(n) == IF n < 10 THEN <<48 + n>> ELSE NatText(n \div 10) \o <<48 + (n % 10)>>

RECURSIVE Printed(_, _, _, _)
\* pretty: indented by w per level, at level l
Printed(v, pretty, w, l) ==
  LET nl(k) == IF pretty THEN <<10>> \o Sp(w * k) ELSE <<>>
      list(open, items, close) == IF items = <<>> THEN <<open, close>>
        ELSE <<open>> \o nl(l + 1) \o items[1] \o Cat([k \in 1..(Len(items) - 1) |-> <<44>> \o nl(l + 1) \o items[k + 1]]) \o nl(l) \o <<close>>
  IN CASE v.t = "null" -> NullW
       [] v.t = "bool" -> IF v.b THEN TrueW ELSE FalseW
       [] v.t = "int" -> (IF v.neg THEN <<45>> ELSE <<>>) \o DigText(v.d)
       [] v.t = "flt" -> IF v.m = 0 THEN <<48, 46, 48>>
            ELSE LET d == NatText(v.m) IN (IF v.neg THEN <<45>> ELSE <<>>) \o <<d[1], 46>> \o Tail(d) \o <<101>> \o (IF v.e < 0 THEN <<45>> \o NatText(-v.e) ELSE NatText(v.e))
       [] v.t = "str" -> PrintStr(v.s)
       [] v.t = "arr" -> list(91, [k \in 1..Len(v.a) |-> Printed(v.a[k], pretty, w, l + 1)], 93)
       [] v.t = "obj" -> list(123, [k \in 1..Len(v.k) |-> PrintStr(v.k[k]) \o <<58>> \o (IF pretty THEN <<32>> ELSE <<>>) \o Printed(v.v[k], pretty, w, l + 1)], 125)
=============================================================================
