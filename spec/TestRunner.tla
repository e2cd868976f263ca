----------------------------- MODULE TestRunner -----------------------------
(* A registry of tests and what a run of it does and prints.                                                                      *)
(* reg: the tests in registration order, [suite, name (bytes), fn, fix (runs in a fixture)].                                       *)
(* oc: what each function does in this run: [ok, std (a standard exception, with a message), msg, ctor (thrown by the fixture)].   *)
(* A run is the sequence of what is printed and called: lines [k, n, m, s]; n = 1 in an info line: any text.                                                     *)
EXTENDS Integers, Sequences, FiniteSets
RECURSIVE Less(_, _)
Less(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE ELSE a[1] < b[1] \/ (a[1] = b[1] /\ Less(Tail(a), Tail(b)))
Dot == <<46>>
Full(t) == t.suite \o Dot \o t.name
L(k, n, m, s) == [k |-> k, n |-> n, m |-> m, s |-> s]
Suites(reg) == {reg[j].suite : j \in DOMAIN reg}
RECURSIVE Sorted(_)                                    \* names in order
Sorted(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : \A y \in S \ {x} : Less(x, y) IN <<x>> \o Sorted(S \ {x})
InSuite(reg, x) == SelectSeq(reg, LAMBDA t : t.suite = x)
RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE q[1] \o Flat(Tail(q))
Order(reg) == Flat([k \in 1..Cardinality(Suites(reg)) |-> InSuite(reg, Sorted(Suites(reg))[k])])

\* what the function of a test does: a fixture is made, and ended, around it
Body(t, o) == (IF t.fix THEN <<L("ctor", t.fn, 0, <<>>)>> ELSE <<>>)
              \o (IF t.fix /\ o.ctor THEN <<>> ELSE <<L("call", t.fn, 0, <<>>)>> \o (IF t.fix THEN <<L("dtor", t.fn, 0, <<>>)>> ELSE <<>>))
Verdict(t, o) == IF o.ok THEN <<L("ok", 0, 0, Full(t))>>
                 ELSE <<L("fail", 0, 0, Full(t)), L("info", IF o.std THEN 0 ELSE 1, 0, IF o.std THEN o.msg ELSE <<>>)>>
TestLines(t, o) == <<L("run", 0, 0, Full(t))>> \o Body(t, o) \o Verdict(t, o)
SuiteLines(reg, oc, x) == LET q == InSuite(reg, x) IN
  <<L("suite", Len(q), 0, x)>> \o Flat([k \in DOMAIN q |-> TestLines(q[k], oc[q[k].fn])]) \o <<L("suiteEnd", Len(q), 0, x)>>
Failed(reg, oc) == SelectSeq(Order(reg), LAMBDA t : ~oc[t.fn].ok)
Summary(reg, oc) == LET f == Failed(reg, oc)  p == Len(reg) - Len(f) IN
  (IF p > 0 THEN <<L("passed", p, 0, <<>>)>> ELSE <<>>)
  \o (IF f # <<>> THEN <<L("failed", Len(f), 0, <<>>)>> \o [k \in DOMAIN f |-> L("listed", 0, 0, Full(f[k]))] ELSE <<>>)
  \o <<L("summary", Len(f), 0, <<>>)>>
Report(reg, oc) ==
  LET S == Sorted(Suites(reg)) IN
  <<L("start", Len(reg), Len(S), <<>>)>> \o Flat([k \in DOMAIN S |-> SuiteLines(reg, oc, S[k])])
  \o <<L("end", Len(reg), Len(S), <<>>)>> \o Summary(reg, oc)
Status(reg, oc) == IF Failed(reg, oc) = <<>> THEN 0 ELSE 1
=============================================================================
