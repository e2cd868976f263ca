----------------------------- MODULE MCSharedAlg ----------------------------
(* The counting algorithm behind shared and weak pointers, instruction by instruction: an atomic count of owners, an    *)
(* atomic count of observers (all owners together being one), a compare-exchange loop to lock.  Every interleaving must *)
(* be allowed by Owners (at the points where its hidden steps take effect) and by Memory, with the given memory orders. *)
EXTENDS Owners, Memory, TLC
CONSTANTS NThreads, Inits, MaxOps, OpSet,
          DropAcquire, DropRelease,     \* order of the decrement of the owners
          WeakAcquire, WeakRelease,     \* order of the decrement of the observers
          LockOnce                      \* TRUE: a compare-exchange that fails is not repeated
MCInits == {<<1, 0, 1, 0>>, <<0, 0, 1, 1>>}
MCInits3 == {<<1, 0, 1, 0>>}
MCOps == {"copy", "dropa", "lock", "lockuse", "unwatch", "expired", "use", "take", "watch", "wcopy"}
MCOps2 == {"copy", "dropa", "lock", "use", "take", "unwatch"}
MCOps3 == {"copy", "lockuse", "take"}
VARIABLES s, m, todo, q, cnt, bad
vars == <<s, m, todo, q, cnt, bad>>
Ends == <<"endb", "enda", "endv", "endw">>
N == NThreads + 1
\* the slots of the threads in the object, the two counts
OwnersCell == N + 1
ObserversCell == N + 2
Cells == 2..N + 2
Block(o) == "object"
Counter(o) == "counter"
Init == /\ \E init \in [1..NThreads -> Inits], prog \in [1..NThreads -> UNION {[1..n -> OpSet] : n \in 0..MaxOps}] :
              /\ s = O0(init, <<>>) /\ todo = [t \in 1..NThreads |-> prog[t] \o Ends]
              /\ \E t \in 1..NThreads : init[t][1] = 1
              /\ LET owners == Cardinality({<<t, k>> \in (1..NThreads) \X {1, 2} : init[t][k] = 1})
                     weak == Cardinality({<<t, k>> \in (1..NThreads) \X {3, 4} : init[t][k] = 1})
                 IN cnt = [n |-> owners, k |-> weak + 1]
        /\ m = M0(N, Cells, {Block(1), Counter(1)})
        /\ q = [t \in 2..N |-> <<>>] /\ bad = ""
\* the instructions of an operation
I(k, o) == [k |-> k, o |-> o, x |-> "", v |-> 0]
Inc(o) == IF o = 0 THEN <<>> ELSE <<I("inc", o)>>
Dec(o) == IF o = 0 THEN <<>> ELSE <<I("dec", o)>>
Winc(o) == IF o = 0 THEN <<>> ELSE <<I("winc", o)>>
Wdec(o) == IF o = 0 THEN <<>> ELSE <<I("wdec", o)>>
ActI == <<I("act", 0)>>
Code(t, op) ==
  LET v == s.own[t]  w == s.obs[t]
      lock(x) == IF w.w = 0 THEN ActI ELSE <<I("load", w.w)>>
  IN CASE op = "copy" -> Inc(v.a) \o (IF v.b = 0 THEN (IF v.b = v.a THEN <<>> ELSE ActI) ELSE IF v.b = v.a THEN Dec(v.b) ELSE <<[I("dec", v.b) EXCEPT !.x = "act"]>>)
       [] op = "take" -> (IF v.a = 0 THEN ActI ELSE <<I("use", v.a), [I("dec", v.a) EXCEPT !.x = "act"]>>)
       [] op \in {"dropa", "enda"} -> (IF v.a = 0 THEN ActI ELSE <<[I("dec", v.a) EXCEPT !.x = "act"]>>)
       [] op = "endb" -> (IF v.b = 0 THEN ActI ELSE <<[I("dec", v.b) EXCEPT !.x = "act"]>>)
       [] op = "lock" -> lock("b") \o <<I("rest", v.b)>>
       [] op = "lockuse" -> lock("h") \o <<I("useh", 0)>>
       [] op = "expired" -> (IF w.w = 0 THEN ActI ELSE <<I("look", w.w)>>)
       [] op = "watch" -> Winc(v.a) \o Wdec(w.w)
       [] op = "wcopy" -> Winc(w.w) \o Wdec(w.v)
       [] op \in {"unwatch", "endw"} -> Wdec(w.w)
       [] op = "endv" -> Wdec(w.v)
       [] op = "use" -> IF v.a = 0 THEN <<>> ELSE <<I("use", v.a)>>
CallStep(t) == /\ s.pend[t].o = "" /\ todo[t - 1] # <<>>
               /\ s' = Call(s, t, Head(todo[t - 1])) /\ q' = [q EXCEPT ![t] = Code(t, Head(todo[t - 1]))] /\ todo' = [todo EXCEPT ![t - 1] = Tail(@)]
               /\ UNCHANGED <<m, cnt, bad>>
RetStep(t) == /\ s.pend[t].o # "" /\ q[t] = <<>>
              /\ bad' = (IF CanRet(s, t) THEN bad ELSE "returns too early") /\ s' = Ret(s, t) /\ UNCHANGED <<m, todo, q, cnt>>
Acc(t, c, mode, acq, rel) == /\ bad' = (IF AccessOk(m, t, <<c>>, mode) THEN bad ELSE "access") /\ m' = Access(m, t, <<c>>, mode, acq, rel)
Go(t, rest) == q' = [q EXCEPT ![t] = rest] /\ UNCHANGED todo
Exec(t) ==
  LET i == Head(q[t])  rest == Tail(q[t])  n == OwnersCell  k == ObserversCell IN
  CASE i.k = "act" -> s' = Act(s, t) /\ Go(t, rest) /\ UNCHANGED <<m, cnt, bad>>
    [] i.k = "inc" -> Acc(t, n, "x", FALSE, FALSE) /\ cnt' = [cnt EXCEPT !.n = @ + 1] /\ Go(t, rest) /\ UNCHANGED s
    [] i.k = "winc" -> Acc(t, k, "x", FALSE, FALSE) /\ cnt' = [cnt EXCEPT !.k = @ + 1] /\ Go(t, rest) /\ UNCHANGED s
    [] i.k = "dec" -> /\ Acc(t, n, "x", DropAcquire, DropRelease) /\ cnt' = [cnt EXCEPT !.n = @ - 1]
                      /\ s' = (IF i.x = "act" THEN Act(s, t) ELSE s)
                      /\ Go(t, (IF cnt.n = 1 THEN <<I("kill", i.o), I("wdec", i.o)>> ELSE <<>>) \o rest)
    [] i.k = "kill" -> LET slots == [j \in 1..NThreads |-> j + 1] IN
                       /\ bad' = (IF ~CanDestroy(s, i.o) THEN "destroyed while owned" ELSE IF ~AccessOk(m, t, slots, "r") \/ ~FreeOk(m, t, Block(i.o), slots) THEN "unordered destruction" ELSE bad)
                       /\ s' = Destroy(s, i.o) /\ m' = Free(m, Block(i.o), slots) /\ Go(t, rest) /\ UNCHANGED cnt
    [] i.k = "wdec" -> Acc(t, k, "x", WeakAcquire, WeakRelease) /\ cnt' = [cnt EXCEPT !.k = @ - 1]
                       /\ Go(t, (IF cnt.k = 1 THEN <<I("freecnt", i.o)>> ELSE <<>>) \o rest) /\ UNCHANGED s
    [] i.k = "freecnt" -> /\ bad' = (IF FreeOk(m, t, Counter(i.o), <<n, k>>) THEN bad ELSE "unordered release of the counter")
                          /\ m' = Free(m, Counter(i.o), <<n, k>>) /\ Go(t, rest) /\ UNCHANGED <<s, cnt>>
    [] i.k = "use" -> Acc(t, t, "w", FALSE, FALSE) /\ Go(t, rest) /\ UNCHANGED <<s, cnt>>
    [] i.k = "load" -> /\ Acc(t, n, "l", FALSE, FALSE) /\ UNCHANGED cnt
                       /\ IF cnt.n = 0 THEN s' = Act(s, t) /\ Go(t, rest) ELSE UNCHANGED s /\ Go(t, <<[I("cas", i.o) EXCEPT !.v = cnt.n]>> \o rest)
    [] i.k = "cas" -> IF cnt.n = i.v
                      THEN Acc(t, n, "x", TRUE, TRUE) /\ cnt' = [cnt EXCEPT !.n = @ + 1] /\ s' = Act(s, t) /\ Go(t, rest)
                      ELSE IF LockOnce /\ cnt.n # 0
                      THEN bad' = "lock failed although owned" /\ s' = Act(s, t) /\ Go(t, rest) /\ UNCHANGED <<m, cnt>>
                      ELSE /\ Acc(t, n, "l", FALSE, FALSE) /\ UNCHANGED cnt
                           /\ IF cnt.n = 0 THEN s' = Act(s, t) /\ Go(t, rest) ELSE UNCHANGED s /\ Go(t, <<[I("cas", i.o) EXCEPT !.v = cnt.n]>> \o rest)
    [] i.k = "look" -> Acc(t, n, "l", TRUE, FALSE) /\ s' = Act(s, t) /\ Go(t, rest) /\ UNCHANGED cnt
    \* after a lock into b: the old owner goes; after a lock into h: the object is used and released
    [] i.k = "rest" -> /\ UNCHANGED <<s, m, cnt, bad>>
                       /\ Go(t, (IF i.o = 0 THEN ActI ELSE <<[I("dec", i.o) EXCEPT !.x = "act"]>>) \o rest)
    [] i.k = "useh" -> /\ UNCHANGED <<s, m, cnt, bad>>
                       /\ Go(t, (IF s.own[t].h = 0 THEN ActI ELSE <<I("use", s.own[t].h), [I("dec", s.own[t].h) EXCEPT !.x = "act"]>>) \o rest)
Step(t) == s.pend[t].o # "" /\ q[t] # <<>> /\ Exec(t)
Over == \A t \in 2..N : s.pend[t].o = "" /\ todo[t - 1] = <<>>
Next == (bad = "" /\ \E t \in 2..N : CallStep(t) \/ RetStep(t) \/ Step(t)) \/ ((Over \/ bad # "") /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
Sound == bad = ""
\* the counter is the number of owners (outside the instructions of an operation under way)
Counted == (\A t \in 2..N : s.pend[t].o = "") => cnt.n = Cardinality({<<t, x>> \in (2..N) \X Strong : s.own[t][x] = 1})
Freed == Over => m.live = {} /\ Finished(s)
=============================================================================
