------------------------------- MODULE Owners -------------------------------
(* Shared and weak pointers of several threads.  Every thread has its own variables: a, b (shared) and w, v (weak); h   *)
(* and r are the temporary owner of an operation and the owner it is about to release.  An operation begins (call),     *)
(* acts on the shared ownership in hidden atomic steps (pend.todo), and ends (ret).  An object may be destroyed when no *)
(* owner is left, and must be by the end of the operation that released its last owner.                                 *)
EXTENDS Naturals, Sequences, FiniteSets
Strong == {"a", "b", "h", "r"}
Idle == [o |-> "", todo |-> <<>>, res |-> 0]
\* init[t] = <<a, b, w, v>>: objects (0: none); keep: objects that thread 1 also owns until it drops them
O0(init, keep) ==
  LET n == Len(init) + 1 IN
  [own |-> [t \in 1..n |-> [x \in Strong |-> IF t = 1 THEN 0 ELSE IF x = "a" THEN init[t - 1][1] ELSE IF x = "b" THEN init[t - 1][2] ELSE 0]],
   obs |-> [t \in 1..n |-> [x \in {"w", "v"} |-> IF t = 1 THEN 0 ELSE IF x = "w" THEN init[t - 1][3] ELSE init[t - 1][4]]],
   kept |-> keep, pend |-> [t \in 1..n |-> Idle], dead |-> {}, due |-> {},
   made |-> LET all == {init[k][j] : k \in 1..Len(init), j \in 1..4} \cup {keep[k] : k \in 1..Len(keep)} IN CHOOSE m \in all \cup {0} : \A x \in all : x <= m]
Owned(s, o) == (\E t \in DOMAIN s.own : \E x \in Strong : s.own[t][x] = o) \/ (\E k \in 1..Len(s.kept) : s.kept[k] = o)
Set(s, t, x, o) == [s EXCEPT !.own[t][x] = o]
\* the old owner held by x is to be released
Release(s, t, x) == [s EXCEPT !.own[t].r = s.own[t][x], !.own[t][x] = 0, !.pend[t].todo = Append(@, "release")]
Do(s, t, todo) == [s EXCEPT !.pend[t].todo = @ \o todo]
Res(s, t, r) == [s EXCEPT !.pend[t].res = r]
Ops == {"copy", "hold", "move", "take", "dropa", "dropb", "nulla", "renew", "lock", "locka", "lockuse", "expired", "isnull", "watch", "watchv", "wcopy",
        "wmove", "unwatch", "use", "enda", "endb", "endw", "endv", "drop"}
\* the part of an operation that only concerns the variables of its thread
Call(s0, t, op) ==
  LET s == [s0 EXCEPT !.pend[t] = [o |-> op, todo |-> <<>>, res |-> 0]]
      v == s.own[t]
      w == s.obs[t]
  IN CASE op = "copy" -> IF v.b = v.a THEN Res(s, t, v.a) ELSE Res(Set(Release(s, t, "b"), t, "b", v.a), t, v.a)
       [] op = "hold" -> Res(Do(Set(s, t, "h", v.a), t, <<"end">>), t, v.a)
       [] op = "move" -> Res(Set(Set(Release(s, t, "b"), t, "b", v.a), t, "a", 0), t, v.a)
       [] op = "take" -> Res(Do(Set(Set(s, t, "h", v.a), t, "a", 0), t, <<"end">>), t, v.a)
       [] op \in {"dropa", "nulla", "enda"} -> Release(s, t, "a")
       [] op \in {"dropb", "endb"} -> Release(s, t, "b")
       [] op = "renew" -> [Res(Set(Release(s, t, "a"), t, "a", s.made + 1), t, s.made + 1) EXCEPT !.made = @ + 1]
       [] op = "lock" -> Do(s, t, <<"lockb", "release">>)
       [] op = "locka" -> Do(s, t, <<"locka", "release">>)
       [] op = "lockuse" -> Do(s, t, <<"lockh", "end">>)
       [] op \in {"expired", "isnull"} -> Do(s, t, <<"look">>)
       [] op = "watch" -> [s EXCEPT !.obs[t].w = v.a]
       [] op = "watchv" -> [s EXCEPT !.obs[t].v = v.a]
       [] op = "wcopy" -> [s EXCEPT !.obs[t].v = w.w]
       [] op = "wmove" -> [s EXCEPT !.obs[t].v = w.w, !.obs[t].w = 0]
       [] op \in {"unwatch", "endw"} -> [s EXCEPT !.obs[t].w = 0]
       [] op = "endv" -> [s EXCEPT !.obs[t].v = 0]
       [] op = "use" -> s
       [] op = "drop" -> [s EXCEPT !.own[t].r = s.kept[1], !.kept = Tail(@), !.pend[t].todo = <<"release">>]
Drop(s, t, x) ==
  LET o == s.own[t][x]
      s1 == Set(s, t, x, 0)
  IN IF o = 0 \/ Owned(s1, o) THEN s1 ELSE [s1 EXCEPT !.due = @ \cup {<<o, t>>}]
\* a hidden atomic step
CanAct(s, t) == s.pend[t].todo # <<>>
Act(s0, t) ==
  LET d == Head(s0.pend[t].todo)
      s == [s0 EXCEPT !.pend[t].todo = Tail(@)]
      o == s.obs[t].w
      got == IF o # 0 /\ Owned(s, o) THEN o ELSE 0
      lock(x) == Res(Set(Set(s, t, "r", s.own[t][x]), t, x, got), t, got)
  IN CASE d = "release" -> Drop(s, t, "r")
       [] d = "end" -> Drop(s, t, "h")
       [] d = "lockb" -> lock("b")
       [] d = "locka" -> lock("a")
       [] d = "lockh" -> Res(Set(s, t, "h", got), t, got)
       [] d = "look" -> Res(s, t, IF got = 0 THEN 1 ELSE 0)
CanDestroy(s, o) == o \in 1..s.made /\ o \notin s.dead /\ ~Owned(s, o)
Destroy(s, o) == [s EXCEPT !.dead = @ \cup {o}, !.due = {p \in @ : p[1] # o}]
\* nothing is left to do, and what this operation released for good is destroyed
CanRet(s, t) == s.pend[t].o # "" /\ s.pend[t].todo = <<>> /\ (\A p \in s.due : p[2] # t)
Ret(s, t) == [s EXCEPT !.pend[t] = Idle]
CanCall(s, t, op) == s.pend[t].o = "" /\ op \in Ops
Quiet(s) == \A t \in DOMAIN s.pend : s.pend[t].o = ""
\* everybody is done: all objects are destroyed
Finished(s) == Quiet(s) /\ s.dead = 1..s.made
=============================================================================
