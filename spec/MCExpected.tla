----------------------------- MODULE MCExpected -----------------------------
(* Results as owners of payload instances.  Construction and assignment are done in the steps of the implementation (copy, which   *)
(* may fail, destroy, move); the invariants say that they come to what Expected says: each instance is constructed and destroyed   *)
(* once, a failing copy changes nothing.  ASSUMEs check the laws of the combinators.  Every transition is emitted as a test.       *)
EXTENDS Expected, TLC, Json
CONSTANTS Slots, Tags, Emit
VARIABLES res,    \* abstract: what every variable holds
          own,    \* instance number owned by every variable (0: absent)
          heap,   \* live instances: number -> <<side, content>> (content -1: moved away)
          hist
vars == <<res, own, heap, hist>>
Nums == 1..(2 * Slots + 2)
Init == res = [s \in 1..Slots |-> <<>>] /\ own = [s \in 1..Slots |-> 0] /\ heap = [n \in Nums |-> <<>>] /\ hist = <<>>
Free == CHOOSE n \in Nums : heap[n] = <<>> /\ \A k \in Nums : heap[k] = <<>> => n <= k
Free2 == CHOOSE n \in Nums : n # Free /\ heap[n] = <<>> /\ \A k \in Nums : heap[k] = <<>> /\ k # Free => n <= k
Put(h, n, x) == [h EXCEPT ![n] = x]
Gone(h, n) == [h EXCEPT ![n] = <<>>]
Moved(x) == <<x[1], -1>>
\* a new payload x for variable d, from a temporary that lives until the end of the statement; may fail if it is a copy
Do(e) ==
  /\ Allowed(res, e)
  /\ hist' = Append(hist, e)
  /\ IF e.k = 1 /\ e.op \in {"cv", "ce", "cc", "ac", "av", "ae"} /\ ~(e.op = "ac" /\ e.d = e.s)   \* the copy fails
     THEN UNCHANGED <<res, own, heap>>
     ELSE
     /\ res' = LET r == After(res, e) IN IF MovedFrom(e) = 0 THEN r ELSE [r EXCEPT ![MovedFrom(e)] = Moved(res[e.s])]
     /\ CASE e.op = "del" -> own' = [own EXCEPT ![e.d] = 0] /\ heap' = Gone(heap, own[e.d])
          [] Building(e.op) ->
             LET x == IF e.op \in FromContent THEN <<SideOf(e.op), e.x>> ELSE heap[own[e.s]] IN
             /\ own' = [own EXCEPT ![e.d] = Free]
             /\ heap' = IF e.op = "cm" THEN Put(Put(heap, Free, x), own[e.s], Moved(x)) ELSE Put(heap, Free, x)
          [] e.op \in {"av", "ar", "ae", "aer"} \/ (e.op = "ac" /\ e.d # e.s) ->
             \* temporary result, old payload destroyed, temporary moved in, temporary destroyed
             LET x == IF e.op = "ac" THEN heap[own[e.s]] ELSE <<SideOf(e.op), e.x>>
                 h1 == Put(heap, Free, x)
                 h2 == Gone(h1, own[e.d])
                 h3 == Put(Put(h2, Free2, x), Free, Moved(x))
             IN own' = [own EXCEPT ![e.d] = Free2] /\ heap' = Gone(h3, Free)
          [] e.op = "am" /\ e.d # e.s ->
             LET x == heap[own[e.s]]
                 h1 == Gone(heap, own[e.d])
             IN own' = [own EXCEPT ![e.d] = Free] /\ heap' = Put(Put(h1, Free, x), own[e.s], Moved(x))
          [] OTHER -> UNCHANGED <<own, heap>>
Next == \E d \in 1..Slots :
  \/ Do([op |-> "del", d |-> d, k |-> 0])
  \/ \E o \in FromContent : \E x \in Tags : \E k \in (IF o \in {"cv", "ce", "av", "ae"} THEN 0..1 ELSE {0}) : Do([op |-> o, d |-> d, x |-> x, k |-> k])
  \/ \E s \in 1..Slots : \E o \in {"cc", "cm", "ac", "am"} : \E k \in (IF o \in {"cc", "ac"} THEN 0..1 ELSE {0}) : Do([op |-> o, d |-> d, s |-> s, k |-> k])
Spec == Init /\ [][Next]_vars
\* instances are numbered arbitrarily
View == res
OneEach == /\ \A s \in 1..Slots : (own[s] = 0) = (res[s] = <<>>) /\ (own[s] # 0 => heap[own[s]] = res[s])
           /\ \A s, t \in 1..Slots : s # t /\ own[s] # 0 => own[s] # own[t]
           /\ \A n \in Nums : heap[n] # <<>> => \E s \in 1..Slots : own[s] = n
EmitTest == IF Emit THEN PrintT("T:" \o ToJson(hist')) ELSE TRUE

\* ---- laws of the combinators
Rs == {0, 1} \X (0..5)
Fn == 0..3
AsRes(o) == <<o[2], o[3]>>
Bind(r, f) == Comb("andThen", r, f, 0).out
ASSUME \A r \in Rs :
  /\ Comb("map", r, 3, 0).out = Res(r) /\ Comb("mapError", r, 3, 0).out = Res(r)                         \* identity
  /\ Comb("map", AsRes(Comb("map", r, 0, 0).out), 1, 0).out = (IF IsOk(r) THEN <<1, 1, 2 * (Held(r) + 1)>> ELSE Res(r))   \* composition
  /\ \A f \in {0, 1, 3, 4} :
       /\ Bind(<<1, Held(r)>>, f) = K1(f, Held(r)) /\ Bind(r, 3) = Res(r)                                \* units of binding
       /\ \A g \in {0, 1, 3, 4} : Bind(AsRes(Bind(r, f)), g) = (IF IsOk(r) THEN Bind(AsRes(K1(f, Held(r))), g) ELSE Res(r))   \* associativity
       /\ Comb("then", r, f, 0) = Comb("andThen", r, f, 0) /\ Comb("catchError", r, f, 0) = Comb("orElse", r, f, 0)
       /\ Comb("orElse", r, 4, 0).out = Res(r)
  /\ \A op \in Combs : \A f \in Fn : \A a \in 0..2 :
       LET c == Comb(op, r, f, a) IN
       /\ Len(c.calls) <= 1                                                                              \* at most one call
       /\ (op \in {"map", "andThen", "then", "filter", "fold"} => (Len(c.calls) = 1) = IsOk(r))          \* exactly on its side
       /\ (op \in {"mapError", "orElse", "catchError", "onError", "unwrapOrElse"} => (Len(c.calls) = 1) = ~IsOk(r))
       /\ (c.out = Threw => c.calls # <<>>)
       /\ (op \in {"map", "mapError", "filter", "onError"} /\ c.calls = <<>> => c.out = Res(r))
  /\ \A a \in 0..2 : Comb("unwrapOr", r, 0, a) = Comb("unwrapOrDefault1", r, 0, a)
  /\ (Comb("get", r, 0, 0).out = Refused) = ~(Comb("getError", r, 0, 0).out = Refused)
=============================================================================
