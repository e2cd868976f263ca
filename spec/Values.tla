------------------------------- MODULE Values -------------------------------
(* Numbers of any machine type in one order, and what the small utilities say about them.                                          *)
(* A number is [neg, mag]: mag is a sequence of bytes of one length whose lexicographic order is that of the absolute values.      *)
EXTENDS Integers, Sequences, FiniteSets
RECURSIVE LexLess(_, _, _)
LexLess(a, b, k) == k <= Len(a) /\ (a[k] < b[k] \/ (a[k] = b[k] /\ LexLess(a, b, k + 1)))
Eq(x, y) == x = y
Lt(x, y) == IF x.neg # y.neg THEN x.neg ELSE IF x.neg THEN LexLess(y.mag, x.mag, 1) ELSE LexLess(x.mag, y.mag, 1)
Le(x, y) == ~Lt(y, x)
Bit(b) == IF b THEN 1 ELSE 0
Comparisons(x, y) == <<Bit(Eq(x, y)), Bit(~Eq(x, y)), Bit(Lt(x, y)), Bit(Lt(y, x)), Bit(Le(x, y)), Bit(Le(y, x))>>  \* eq ne less greater le ge

RangeOf(q) == {q[j] : j \in DOMAIN q}
\* e.op = "cmp": x against every number of ys, by all comparisons
Compared(e) == \A j \in DOMAIN e.ys : e.res[j] = Comparisons(e.x, e.ys[j])
\* random numbers: within the bounds; if e.all, the bounds are integers lo..hi of a small range whose members all occur;
\* e.cuts: ends of the quarters of a wide range, all of which occur
Randomly(e) == /\ \A v \in RangeOf(e.vals) : Le(e.lo, v) /\ Le(v, e.hi)
               /\ (e.count > 0 => Cardinality(RangeOf(e.vals)) = e.count)
               /\ (e.cuts # <<>> => LET c == <<e.lo>> \o e.cuts \o <<e.hi>> IN
                     \A k \in 1..(Len(c) - 1) : \E v \in RangeOf(e.vals) : Le(c[k], v) /\ Le(v, c[k + 1]))
\* random booleans: n calls, how many were refused, how many were true
Zero(m) == [neg |-> FALSE, mag |-> [j \in 1..m |-> 0]]
Boolean(e) == LET bad == e.nan \/ Lt(e.p, Zero(Len(e.p.mag))) \/ Lt(e.one, e.p) IN
  IF bad THEN e.refused = e.n ELSE
  /\ e.refused = 0
  /\ (e.p = Zero(Len(e.p.mag)) => e.trues = 0) /\ (e.p = e.one => e.trues = e.n)
  /\ (e.both => e.trues > 0 /\ e.trues < e.n)
\* keys and values of a map whose entries are items in its order
Mapped(e) == e.keys = [j \in DOMAIN e.items |-> e.items[j][1]] /\ e.vals = [j \in DOMAIN e.items |-> e.items[j][2]] /\ e.after = e.items
Sized(e) == e.bytes = e.size /\ e.bits = 8 * e.size
Limited(e) == e.min = e.least /\ e.max = e.most /\ e.range = <<e.least, e.most>>
Good(e) == CASE e.op = "cmp" -> Compared(e) [] e.op = "random" -> Randomly(e) [] e.op = "bool" -> Boolean(e)
             [] e.op = "map" -> Mapped(e) [] e.op = "size" -> Sized(e) [] e.op = "limit" -> Limited(e)
=============================================================================
