------------------------------ MODULE TOwners -------------------------------
(* Recorded executions of threads over shared and weak pointers are behaviours of Owners, and their accesses to memory *)
(* are allowed by Memory.  ss: the states of Owners that explain the events so far (its hidden steps may have happened *)
(* at any time).                                                                                                       *)
EXTENDS Owners, Memory, Json, IOUtils, TLC
Hist == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES ss, m, h, i
vars == <<ss, m, h, i>>
E == Hist[h][i]
RECURSIVE Closure(_, _)
Closure(S, new) ==
  IF new = {} THEN S
  ELSE LET more == UNION {{Act(s, t) : t \in {u \in DOMAIN s.pend : CanAct(s, u)}} : s \in new} \ S
       IN Closure(S \cup more, more)
TInit == h \in 1..Len(Hist) /\ i = 2 /\ Hist[h][1].op = "start"
         /\ ss = {O0(Hist[h][1].vars, Hist[h][1].keep)} /\ m = M0(Len(Hist[h][1].vars) + 1, 1..Hist[h][1].cells, {})
Own(e) == CASE e.op = "call" -> LET r == {Call(s, e.t, e.o) : s \in {s \in ss : CanCall(s, e.t, e.o)}} IN Closure(r, r)
            [] e.op = "ret" -> {Ret(s, e.t) : s \in {s \in ss : CanRet(s, e.t) /\ e.r = s.pend[e.t].res}}
            [] e.op = "destroy" -> {Destroy(s, e.x) : s \in {s \in ss : CanDestroy(s, e.x)}}
            [] OTHER -> ss
MemOk(e) == CASE e.op = "access" -> AccessOk(m, e.t, e.c, e.m)
              [] e.op = "free" -> FreeOk(m, e.t, e.b, e.c)
              [] OTHER -> TRUE
Mem(e) == CASE e.op = "access" -> Access(m, e.t, e.c, e.m, e.q, e.e)
            [] e.op = "fence" -> Fence(m, e.t, e.q, e.e)
            [] e.op = "free" -> Free(m, e.b, e.c)
            [] e.op = "new" -> New(m, e.b)
            [] e.op = "join" -> Joined(m)
            [] OTHER -> m
Step == /\ E.op \in {"call", "ret", "destroy", "access", "fence", "free", "new", "join"}
        /\ MemOk(E) = TRUE
        /\ LET S == Own(E) IN S # {} /\ ss' = S
        /\ m' = Mem(E) /\ i' = i + 1
Next == /\ UNCHANGED h
        /\ \/ i <= Len(Hist[h]) /\ Step
           \/ i > Len(Hist[h]) /\ (\E s \in ss : Finished(s)) /\ m.live = {} /\ UNCHANGED <<ss, m, i>>
Spec == TInit /\ [][Next]_vars
=============================================================================
