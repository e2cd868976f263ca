------------------------------- MODULE Memory -------------------------------
(* Memory of concurrent threads: happens-before of accesses by vector clocks (C++ memory model: release/acquire       *)
(* operations, release sequences, fences), storage that is freed.  An access is allowed if nobody freed its storage    *)
(* and every conflicting access happened before it.                                                                    *)
EXTENDS Naturals, FiniteSets, Sequences
Join(x, y) == [k \in DOMAIN x |-> IF x[k] > y[k] THEN x[k] ELSE y[k]]
Leq(x, y) == \A k \in DOMAIN x : x[k] <= y[k]
Zero(n) == [k \in 1..n |-> 0]
\* a cell: clocks of the last plain writes (w), plain reads (r), atomic writes (aw) and atomic reads (ar) of each thread,
\* and the clock an acquiring reader of its value obtains (s)
Cell0(n) == [w |-> Zero(n), r |-> Zero(n), aw |-> Zero(n), ar |-> Zero(n), s |-> Zero(n)]
\* threads 1..n; thread 1 is the one that starts and joins the others
M0(n, cells, live) == [vc |-> [t \in 1..n |-> [k \in 1..n |-> IF k = t THEN 1 ELSE 0]], cell |-> [c \in cells |-> Cell0(n)], gone |-> {},
                       live |-> live, rf |-> [t \in 1..n |-> Zero(n)], af |-> [t \in 1..n |-> Zero(n)]]
\* modes: r, w plain read and write; l, s, x atomic load, store, read-modify-write
CellOk(m, t, c, mode) ==
  LET x == m.cell[c]  v == m.vc[t] IN
  /\ c \notin m.gone /\ Leq(x.w, v)
  /\ (mode \in {"w", "s", "x"} => Leq(x.r, v))
  /\ (mode \in {"r", "w"} => Leq(x.aw, v))
  /\ (mode = "w" => Leq(x.ar, v))
AccessOk(m, t, cs, mode) == \A k \in 1..Len(cs) : CellOk(m, t, cs[k], mode)
Mark(m, t, c, mode) ==
  LET e == m.vc[t][t]  x == m.cell[c] IN
  CASE mode = "w" -> [x EXCEPT !.w[t] = e]
    [] mode = "r" -> [x EXCEPT !.r[t] = e]
    [] mode = "l" -> [x EXCEPT !.ar[t] = e]
    [] mode = "s" -> [x EXCEPT !.aw[t] = e]
    [] mode = "x" -> [x EXCEPT !.ar[t] = e, !.aw[t] = e]
RECURSIVE MarkAll(_, _, _, _, _)
MarkAll(m, t, cs, mode, k) == IF k > Len(cs) THEN m ELSE MarkAll([m EXCEPT !.cell[cs[k]] = Mark(m, t, cs[k], mode)], t, cs, mode, k + 1)
Tick(m, t) == [m EXCEPT !.vc[t][t] = @ + 1]
Access(m0, t, cs, mode, acq, rel) ==
  LET m == MarkAll(m0, t, cs, mode, 1) IN
  IF mode \in {"r", "w"} \/ cs = <<>> THEN m
  ELSE LET c == cs[1]
           seen == m.cell[c].s
           m1 == IF mode \in {"l", "x"} THEN [m EXCEPT !.af[t] = Join(@, seen), !.vc[t] = IF acq THEN Join(@, seen) ELSE @] ELSE m
           given == IF rel THEN m1.vc[t] ELSE m1.rf[t]
       IN IF mode = "l" THEN m1
          ELSE Tick([m1 EXCEPT !.cell[c].s = IF mode = "s" THEN given ELSE Join(@, given)], t)
Fence(m, t, acq, rel) ==
  LET m1 == IF acq THEN [m EXCEPT !.vc[t] = Join(@, m.af[t])] ELSE m
  IN IF rel THEN Tick([m1 EXCEPT !.rf[t] = m1.vc[t]], t) ELSE m1
FreeOk(m, t, b, cs) == b \in m.live /\ AccessOk(m, t, cs, "w")
Free(m, b, cs) == [m EXCEPT !.live = @ \ {b}, !.gone = @ \cup {cs[k] : k \in 1..Len(cs)}]
New(m, b) == [m EXCEPT !.live = @ \cup {b}]
RECURSIVE JoinAll(_, _)
JoinAll(m, t) == IF t = 0 THEN m ELSE JoinAll([m EXCEPT !.vc[1] = Join(@, m.vc[t])], t - 1)
Joined(m) == JoinAll(m, Len(m.vc))
=============================================================================
