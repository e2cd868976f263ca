------------------------------ MODULE TStrings ------------------------------
(* Recorded histories of String edits and queries, and of building text from bytes, are behaviours of Strings/Utf8. *)
EXTENDS Strings, Utf8, Json, IOUtils, TLC

Hist == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES h, i
vars == <<s, h, i>>
E == Hist[h][i]
TInit == h \in 1..Len(Hist) /\ i = 1 /\ Init

Edits == {"set", "setn", "append", "pluseq", "cat", "cats", "push", "pushown", "appendn", "appendown", "insert", "inserts", "insertn",
          "insertown", "setat", "at", "substr", "clear", "copy", "swap", "move"}
\* every edit reports the content of all strings (from the byte form) and whether all views of them agree
Edit == /\ E.op \in Edits
        /\ E.ex = Effect(s, E).ex
        /\ E.views
        /\ Do(E)
        /\ \A k \in 1..Regs : s'[k] = E.s[k]
        /\ E.op = "at" /\ ~E.ex => E.cp = s[E.d][E.pos + 1]

\* the empty text occurs everywhere, but whether an empty search at the very end finds it is left open
QueryOk ==
     LET t == s[E.a]
         n == s[E.b]
         L == Len(t)
         c == TCmp(t, n)
         six(r) == r = <<c < 0, c <= 0, c > 0, c >= 0, c = 0, c # 0>>
     IN /\ E.contains = HasText(t, n) \/ (n = <<>> /\ t = <<>>)
        /\ E.starts = StartsWith(t, n)
        /\ E.ends = EndsWith(t, n)
        /\ \A p \in 0..(L + 1) : E.find[p + 1] = Find(t, n, p) \/ (n = <<>> /\ p >= L)
        /\ \A p \in 0..(L + 1) : n = <<>> \/ E.rfind[p + 1] = ReverseFind(t, n, p)
        /\ n = <<>> \/ E.rfind[L + 3] = ReverseFind(t, n, NPos)
        /\ six(E.cmp) /\ six(E.ccmp)
        /\ n # <<>> => \A p \in 0..L :
             /\ E.fi[p + 1] = (LET S == {k \in p..(L - 1) : t[k + 1] = n[1]} IN IF S = {} THEN NPos ELSE Least(S))
             /\ E.fn[p + 1] = (LET S == {k \in p..(L - 1) : t[k + 1] # n[1]} IN IF S = {} THEN NPos ELSE Least(S))
\* (compared with TRUE so that TLC evaluates it as one expression)
Query == E.op = "query" /\ QueryOk = TRUE /\ UNCHANGED s

\* the same of long texts, at some positions (of search texts that are not empty)
LookOk ==
     LET t == s[E.a]
         n == s[E.b]
         L == Len(t)
         c == TCmp(t, n)
         six(r) == r = <<c < 0, c <= 0, c > 0, c >= 0, c = 0, c # 0>>
         hits == {k \in 0..(L - Len(n)) : Occurs(t, n, k)}
         same == {k \in 0..(L - 1) : t[k + 1] = n[1]}
         first(S, p) == IF \A k \in S : k < p THEN NPos ELSE Least({k \in S : k >= p})
         last(S, p) == IF \A k \in S : k > p THEN NPos ELSE Greatest({k \in S : k <= p})
     IN /\ n # <<>>
        /\ E.contains = (hits # {})
        /\ E.starts = (0 \in hits)
        /\ E.ends = (L >= Len(n) /\ L - Len(n) \in hits)
        /\ \A q \in 1..Len(E.ps) : E.find[q] = first(hits, E.ps[q]) /\ E.rfind[q] = last(hits, E.ps[q] - Len(n) + 1)
        /\ E.rfind[Len(E.ps) + 1] = last(hits, L)
        /\ six(E.cmp) /\ six(E.ccmp)
        /\ \A q \in 1..Len(E.ps) : E.ps[q] <= L => E.fi[q] = first(same, E.ps[q]) /\ E.fn[q] = first((0..(L - 1)) \ same, E.ps[q])
Look == E.op = "look" /\ LookOk = TRUE /\ UNCHANGED s

\* all substrings up to one position past the end
Subs ==
  /\ E.op = "subs"
  /\ LET t == s[E.a] IN
     \A q \in 1..Len(E.out) : LET x == E.out[q] IN
        IF x.pos > Len(t) THEN x.ex
        ELSE ~x.ex /\ x.text = (IF x.n = NPos THEN From(t, x.pos) ELSE Slice(t, x.pos, x.n))
  /\ UNCHANGED s

-----------------------------------------------------------------------------
\* text from bytes
Build ==
  /\ E.op = "build"
  /\ IF IsWellFormedAt(E.bytes)
     THEN /\ ~E.ex
          /\ E.cps = DecodeAt(E.bytes)
          /\ Len(E.chars) = Len(E.cps) /\ \A k \in 1..Len(E.cps) : E.chars[k] = Encode(E.cps[k])
          /\ E.out = E.bytes
          /\ E.len = Len(E.cps)
          /\ E.size = Len(E.bytes)
     ELSE ~IsStructured(E.bytes) => E.ex
  /\ UNCHANGED s
CharOf ==   \* one character from its bytes
  /\ E.op = "char"
  /\ IF IsWellFormed(E.bytes) /\ Len(Decode(E.bytes)) = 1
     THEN ~E.ex /\ E.cp = Decode(E.bytes)[1] /\ E.out = E.bytes /\ E.len = Len(E.bytes)
     ELSE ~IsStructured(E.bytes) => E.ex
  /\ UNCHANGED s
Codes ==    \* characters from code points, for a list of them
  /\ E.op = "codes"
  /\ \A k \in 1..Len(E.cps) : E.out[k] = Encode(E.cps[k]) /\ E.back[k] = E.cps[k]
  /\ UNCHANGED s

Next == \/ i <= Len(Hist[h]) /\ (Edit \/ Query \/ Look \/ Subs \/ Build \/ CharOf \/ Codes) /\ i' = i + 1 /\ UNCHANGED h
        \/ i > Len(Hist[h]) /\ UNCHANGED vars
Spec == TInit /\ [][Next]_vars
=============================================================================
