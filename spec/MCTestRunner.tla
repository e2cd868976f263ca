---------------------------- MODULE MCTestRunner ----------------------------
(* A runner that goes through the registry step by step, over several runs with tests added in between, prints what the report says. *)
EXTENDS TestRunner, TLC, Json
CONSTANTS SuiteNames, MaxTests, MaxRuns, Emit
MCSuites == {<<98>>, <<97>>, <<97, 98>>}
Outs == { [ok |-> TRUE, std |-> FALSE, msg |-> <<>>, ctor |-> FALSE], [ok |-> FALSE, std |-> TRUE, msg |-> <<109>>, ctor |-> FALSE],
          [ok |-> FALSE, std |-> FALSE, msg |-> <<>>, ctor |-> TRUE] }
VARIABLES reg, oc, pc, suites, tests, verdict, np, nf, out, runs, hist
vars == <<reg, oc, pc, suites, tests, verdict, np, nf, out, runs, hist>>
NoOc == [f \in 1..MaxTests |-> CHOOSE o \in Outs : o.ok]
Init == reg = <<>> /\ oc = NoOc /\ pc = "idle" /\ suites = <<>> /\ tests = <<>> /\ verdict = [f \in 1..MaxTests |-> FALSE] /\ np = 0 /\ nf = 0 /\ out = <<>> /\ runs = 0 /\ hist = <<>>
Add == /\ pc = "idle" /\ Len(reg) < MaxTests
       /\ \E x \in SuiteNames : \E fix \in BOOLEAN :
            LET t == [suite |-> x, name |-> <<116, 48 + (Len(reg) % 2)>>, fn |-> Len(reg) + 1, fix |-> fix] IN
            /\ reg' = Append(reg, t)
            /\ hist' = Append(hist, [op |-> "add", suite |-> x, name |-> t.name, fn |-> t.fn, fix |-> fix])
       /\ UNCHANGED <<oc, pc, suites, tests, verdict, np, nf, out, runs>>
Start == /\ pc = "idle" /\ runs < MaxRuns /\ runs' = runs + 1
         /\ \E o \in [1..MaxTests -> Outs] :
              /\ \A f \in 1..MaxTests : f > Len(reg) => o[f] = NoOc[f]
              /\ \A f \in 1..Len(reg) : (o[f].ctor => reg[f].fix)
              /\ oc' = o
              /\ hist' = Append(hist, [op |-> "run", oc |-> o])
         /\ np' = 0 /\ nf' = 0 /\ out' = <<L("start", Len(reg), Cardinality(Suites(reg)), <<>>)>> /\ pc' = "suite" /\ suites' = Sorted(Suites(reg))
         /\ UNCHANGED <<reg, tests, verdict>>
NextSuite == /\ pc = "suite"
             /\ IF suites = <<>> THEN pc' = "end" /\ UNCHANGED <<tests, out>>
                ELSE pc' = "test" /\ tests' = InSuite(reg, suites[1]) /\ out' = Append(out, L("suite", Len(tests'), 0, suites[1]))
             /\ UNCHANGED <<reg, oc, suites, verdict, np, nf, runs, hist>>
RunTest == /\ pc = "test" /\ tests # <<>>
           /\ LET t == tests[1]  o == oc[t.fn] IN
              /\ out' = out \o TestLines(t, o)
              /\ verdict' = [verdict EXCEPT ![t.fn] = o.ok]
              /\ np' = np + (IF o.ok THEN 1 ELSE 0) /\ nf' = nf + (IF o.ok THEN 0 ELSE 1)
           /\ tests' = Tail(tests) /\ UNCHANGED <<reg, oc, pc, suites, runs, hist>>
EndSuite == /\ pc = "test" /\ tests = <<>> /\ out' = Append(out, L("suiteEnd", Len(InSuite(reg, suites[1])), 0, suites[1]))
            /\ suites' = Tail(suites) /\ pc' = "suite" /\ UNCHANGED <<reg, oc, tests, verdict, np, nf, runs, hist>>
End == /\ pc = "end" /\ pc' = "idle"
       /\ LET listed == SelectSeq(Order(reg), LAMBDA t : ~verdict[t.fn]) IN
          out' = out \o <<L("end", Len(reg), Cardinality(Suites(reg)), <<>>)>>
                 \o (IF np > 0 THEN <<L("passed", np, 0, <<>>)>> ELSE <<>>)
                 \o (IF nf > 0 THEN <<L("failed", nf, 0, <<>>)>> \o [k \in DOMAIN listed |-> L("listed", 0, 0, Full(listed[k]))] ELSE <<>>)
                 \o <<L("summary", nf, 0, <<>>)>>
       /\ UNCHANGED <<reg, oc, suites, tests, verdict, np, nf, runs, hist>>
Next == Add \/ Start \/ NextSuite \/ RunTest \/ EndSuite \/ End
Spec == Init /\ [][Next]_vars
View == <<reg, oc, pc, suites, tests, verdict, np, nf, out, runs>>
Done == pc = "idle" /\ out # <<>>
Count(k) == Cardinality({j \in DOMAIN out : out[j].k = k})
\* a step that ends a run has printed the report of the registry; tests added later do not change it
Reported == [][pc = "end" => out' = Report(reg, oc)]_vars
\* laws of a report
Truth == pc = "end" =>
  /\ \A j \in DOMAIN reg : Cardinality({i \in DOMAIN out : out[i].k \in {"call", "ctor"} /\ out[i].n = reg[j].fn}) = (IF reg[j].fix /\ ~oc[reg[j].fn].ctor THEN 2 ELSE 1)
  /\ Count("ok") + Count("fail") = Len(reg) /\ Count("run") = Len(reg) /\ np = Count("ok") /\ nf = Count("fail")
  /\ Count("info") = Count("fail") /\ Count("suite") = Cardinality(Suites(reg)) /\ Count("suiteEnd") = Count("suite")
  /\ (nf = 0) = (Status(reg, oc) = 0)
  /\ \A i, j \in DOMAIN out : i < j /\ out[i].k = "suite" /\ out[j].k = "suite" => Less(out[i].s, out[j].s)
  /\ \A i, j \in DOMAIN out : i < j /\ out[i].k = "call" /\ out[j].k = "call" /\ reg[out[i].n].suite = reg[out[j].n].suite => out[i].n < out[j].n
EmitTest == IF Emit /\ hist' # hist /\ hist'[Len(hist')].op = "run" THEN PrintT("T:" \o ToJson(hist')) ELSE TRUE
=============================================================================
