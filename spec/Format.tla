------------------------------- MODULE Format -------------------------------
(* String::Format: templates with {} / {:spec} / {N} / {N:spec} placeholders, {{ and }}.  The result of formatting is a record   *)
(* [kind, out]: kind "ok", "refused", or "open" where the library documents no meaning (for example text between the braces that *)
(* is neither an index nor a specification).                                                                                    *)
EXTENDS Text

LB == 123   \* {
RB == 125   \* }
Colon == 58
Dot == 46
IsD(c) == c \in 48..57
Aligns == {60, 62, 94}   \* < > ^

\* number of leading ASCII digits of t from position k (1-based)
DigitsAt(t, k) == LET S == {n \in 0..(Len(t) - k + 1) : \A j \in k..(k + n - 1) : IsD(t[j])} IN Greatest(S)
\* (long digit strings saturate: no list of arguments or sensible width is that long)
NumAt(t, k, n) == FoldLeft(LAMBDA acc, j : IF acc > 99999999 THEN acc ELSE acc * 10 + (t[k + j - 1] - 48), 0, Idx(n))

-----------------------------------------------------------------------------
(* The field specification: [[fill]align][width][.precision][type] *)
Spec0 == [ok |-> FALSE, fill |-> 32, align |-> 60, width |-> 0, prec |-> -1, type |-> 115]
ParseSpec(q) ==
  LET two == Len(q) >= 2 /\ q[2] \in Aligns
      one == ~two /\ Len(q) >= 1 /\ q[1] \in Aligns
      a == IF two THEN 3 ELSE IF one THEN 2 ELSE 1
      w == DigitsAt(q, a)
      b == a + w
      hasP == b <= Len(q) /\ q[b] = Dot
      p == IF hasP THEN DigitsAt(q, b + 1) ELSE 0
      c == IF hasP THEN b + 1 + p ELSE b
      hasT == c <= Len(q) /\ q[c] \in {115, 100, 102}
      z == IF hasT THEN c + 1 ELSE c
  IN [ok |-> z = Len(q) + 1 /\ (hasP => p > 0),
      fill |-> IF two THEN q[1] ELSE 32,
      align |-> IF two THEN q[2] ELSE IF one THEN q[1] ELSE 60,
      width |-> NumAt(q, a, w),
      prec |-> IF hasP /\ p > 0 THEN NumAt(q, b + 1, p) ELSE -1,
      type |-> IF hasT THEN q[c] ELSE 115]

\* decimal text: optional minus, digits, optionally a point and digits
IsNumeric(v) ==
  LET s == IF Len(v) >= 1 /\ v[1] = 45 THEN 2 ELSE 1
      n == DigitsAt(v, s)
      e == s + n
  IN n > 0 /\ (e = Len(v) + 1 \/ (v[e] = Dot /\ DigitsAt(v, e + 1) = Len(v) - e))
\* exactly p > 0 fractional digits by truncation or zero padding; p = 0: no fraction; p = -1: as it is
WithPrecision(v, p) ==
  LET k == {j \in 1..Len(v) : v[j] = Dot}
      e == IF k = {} THEN Len(v) + 1 ELSE Least(k)
      frac == SubSeq(v, e + 1, Len(v))
      int == SubSeq(v, 1, e - 1)
  IN IF p = -1 THEN v
     ELSE IF p = 0 THEN int
     ELSE int \o <<Dot>> \o (IF Len(frac) >= p THEN SubSeq(frac, 1, p) ELSE frac \o Times(p - Len(frac), 48))

Pad(v, f) ==
  LET n == f.width - Len(v)
      l == CASE f.align = 60 -> 0 [] f.align = 62 -> n [] OTHER -> n \div 2
  IN IF n <= 0 THEN v ELSE Times(l, f.fill) \o v \o Times(n - l, f.fill)

Field(v, q) ==
  LET f == ParseSpec(q) IN
  IF ~f.ok \/ f.width > 100000 \/ f.prec > 100000 THEN [kind |-> "open", out |-> <<>>]
  ELSE IF f.type = 102 THEN
    IF IsNumeric(v) THEN [kind |-> "ok", out |-> Pad(WithPrecision(v, f.prec), f)] ELSE [kind |-> "open", out |-> <<>>]
  ELSE [kind |-> "ok", out |-> Pad(v, f)]

-----------------------------------------------------------------------------
(* The template: one step per literal character, escape or placeholder.  State: position, automatic index, result. *)
Refusal == [kind |-> "refused", out |-> <<>>]
Open == [kind |-> "open", out |-> <<>>]

\* value of the placeholder with body p when auto arguments have been used so far
Placeholder(p, args, auto) ==
  LET n == DigitsAt(p, 1)
      plain(v, rest) == IF rest = <<>> THEN [kind |-> "ok", out |-> v]
                        ELSE IF rest[1] = Colon THEN Field(v, From(rest, 1))
                        ELSE Open
  IN IF n > 0
     THEN LET k == NumAt(p, 1, n) IN
          IF k >= Len(args) THEN Refusal ELSE plain(args[k + 1], From(p, n))
     ELSE LET k == IF Len(args) = 1 THEN 0 ELSE auto IN
          IF k >= Len(args) THEN Refusal ELSE plain(args[k + 1], p)

RECURSIVE NextBrace(_, _)
NextBrace(t, k) == IF k > Len(t) \/ t[k] = LB \/ t[k] = RB THEN k ELSE NextBrace(t, k + 1)
RECURSIVE NextEnd(_, _)
NextEnd(t, k) == IF k > Len(t) \/ t[k] = RB THEN k ELSE NextEnd(t, k + 1)
RECURSIVE Walk(_, _, _, _, _)
Walk(t, args, pos, auto, acc) ==
  IF pos > Len(t) THEN [kind |-> "ok", out |-> acc]
  ELSE LET c == t[pos]
           d == IF pos < Len(t) THEN t[pos + 1] ELSE 0
       IN IF c = LB THEN
            IF d = LB THEN Walk(t, args, pos + 2, auto, Append(acc, LB))
            ELSE LET e == NextEnd(t, pos) IN
                 IF e > Len(t) THEN Refusal
                 ELSE LET p == SubSeq(t, pos + 1, e - 1)
                          v == Placeholder(p, args, auto)
                          a == IF DigitsAt(p, 1) > 0 THEN auto ELSE auto + 1
                      IN IF v.kind # "ok" THEN v ELSE Walk(t, args, e + 1, a, acc \o v.out)
          ELSE IF c = RB THEN
            IF d = RB THEN Walk(t, args, pos + 2, auto, Append(acc, RB)) ELSE Refusal
          ELSE \* literal characters up to the next brace
               LET e == NextBrace(t, pos) IN Walk(t, args, e, auto, acc \o SubSeq(t, pos, e - 1))
Formatted(t, args) == Walk(t, args, 1, 0, <<>>)
=============================================================================
