------------------------------- MODULE Files --------------------------------
(* Files of bytes and the objects through which they are written and read.  Content only grows at its end, except by erasing.      *)
(* disk: content of every path, or <<-1>> if there is no file.  objs: the file objects, <<>> or [path, open, pos, eof].            *)
EXTENDS Integers, Sequences
CONSTANTS Paths, Objects

NoFile == <<-1>>
NoObj == [path |-> 0, open |-> FALSE, pos |-> 0, eof |-> FALSE]
S0 == [disk |-> [p \in 1..Paths |-> NoFile], objs |-> [o \in 1..Objects |-> NoObj]]
Alive(s, o) == s.objs[o].path # 0
Max(a, b) == IF a > b THEN a ELSE b

\* ---- reading a line at position pos of content c: <<piece, next position, end reached>>
\* the first place from k on that holds the delimiter, or Len(c) + 1; looked for in windows of growing width w
RECURSIVE Stop(_, _, _, _)
Stop(c, k, delim, w) ==
  LET hi == IF k + w < Len(c) THEN k + w ELSE Len(c)
      K == {j \in k..hi : c[j] = delim}
  IN IF K # {} THEN CHOOSE j \in K : \A x \in K : j <= x ELSE IF hi = Len(c) THEN Len(c) + 1 ELSE Stop(c, hi + 1, delim, 4 * w)
LineAt(c, pos, delim) ==
  IF pos >= Len(c) THEN <<<<>>, Max(pos, Len(c)), TRUE>>
  ELSE LET k == Stop(c, pos + 1, delim, 1) IN
       IF k > Len(c) THEN <<SubSeq(c, pos + 1, Len(c)), Len(c), TRUE>> ELSE <<SubSeq(c, pos + 1, k - 1), k, FALSE>>

Nl == 10
Text(e) == IF e.op \in {"writeLine", "appendLine"} THEN Append(e.x, Nl) ELSE e.x
Writes == {"write", "writeLine", "append", "appendLine"}

Content(s, p) == IF s.disk[p] = NoFile THEN <<>> ELSE s.disk[p]
Made(s, p) == [s EXCEPT !.disk[p] = Content(s, p)]                          \* opening makes the file
Opened(s, o) == [Made(s, s.objs[o].path) EXCEPT !.objs[o].open = TRUE, !.objs[o].eof = IF s.objs[o].open THEN @ ELSE FALSE]
Ok(s) == [s |-> s, ex |-> FALSE, res |-> <<>>]

Allowed(s, e) ==
  CASE e.op \in {"make"} -> ~Alive(s, e.o)
    [] e.op = "copy" -> ~Alive(s, e.o) /\ Alive(s, e.b)
    [] e.op = "refuse" -> TRUE
    [] e.op \in {"prefill", "vanish"} -> \A o \in 1..Objects : ~(s.objs[o].path = e.p /\ s.objs[o].open)
    [] e.op = "setPos" -> Alive(s, e.o) /\ s.objs[e.o].open
    [] OTHER -> Alive(s, e.o)
Effect(s, e) ==
  CASE e.op = "make" -> Ok(Made([s EXCEPT !.objs[e.o] = [path |-> e.p, open |-> TRUE, pos |-> 0, eof |-> FALSE]], e.p))
    [] e.op = "copy" -> Ok(Made([s EXCEPT !.objs[e.o] = [path |-> s.objs[e.b].path, open |-> TRUE, pos |-> 0, eof |-> FALSE]], s.objs[e.b].path))
    [] e.op = "refuse" -> [Ok(s) EXCEPT !.ex = TRUE]                        \* an object on an empty or unusable path
    [] e.op = "del" -> Ok([s EXCEPT !.objs[e.o] = NoObj])
    [] e.op = "open" -> Ok([Opened(s, e.o) EXCEPT !.objs[e.o].eof = FALSE])
    [] e.op = "close" -> Ok([s EXCEPT !.objs[e.o].open = FALSE])
    [] e.op = "erase" -> Ok([Opened(s, e.o) EXCEPT !.disk[s.objs[e.o].path] = <<>>, !.objs[e.o].pos = 0, !.objs[e.o].eof = FALSE])
    [] e.op \in Writes -> LET t == Opened(s, e.o) IN Ok([t EXCEPT !.disk[s.objs[e.o].path] = @ \o Text(e)])
    [] e.op = "read" -> LET t == Opened(s, e.o) IN [Ok(t) EXCEPT !.res = t.disk[s.objs[e.o].path]]
    [] e.op = "readLine" -> LET t == Opened(s, e.o)
                                l == LineAt(t.disk[s.objs[e.o].path], s.objs[e.o].pos, e.delim) IN
                            [s |-> [t EXCEPT !.objs[e.o].pos = l[2], !.objs[e.o].eof = l[3]], ex |-> FALSE, res |-> l[1]]
    [] e.op = "setPos" -> Ok([s EXCEPT !.objs[e.o].pos = e.pos, !.objs[e.o].eof = FALSE])
    [] e.op = "prefill" -> Ok([s EXCEPT !.disk[e.p] = e.x])                 \* another program puts a file there
    [] e.op = "vanish" -> Ok([s EXCEPT !.disk[e.p] = NoFile])               \* or takes it away
\* calls that say nothing about the end-of-file mark: it stays or is taken back
EofOpen == Writes \cup {"read", "close", "open"}
=============================================================================
