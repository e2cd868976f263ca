------------------------------- MODULE TJson -------------------------------
(* Recorded parses, prints and document histories are those of JsonText and JsonTree. *)
EXTENDS JsonTree, Json, IOUtils, TLC
Hist == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES m, h, i
vars == <<m, h, i>>
E == Hist[h][i]
TInit == h \in 1..Len(Hist) /\ i = 1 /\ m = M0

NoError == <<78, 111, 32, 101, 114, 114, 111, 114, 46>>
Unknown == <<85, 110, 107, 110, 111, 119, 110, 32, 101, 114, 114, 111, 114, 46>>
MsgOk(err, msg) == IF err THEN msg # <<>> /\ msg # NoError /\ msg # Unknown ELSE TRUE

\* any valid text of the value
Denotes(s, v) == LET r == ParseAny(s) IN r.st = "ok" /\ Same(r.v, v, 8)
Text ==
  /\ E.op = "parse" /\ "msg" \in DOMAIN E
  /\ LET r == ParseDoc(E.s) IN
     /\ E.code /\ MsgOk(E.err, E.msg)
     /\ r.st = "ok"  => ~E.err
     /\ r.st = "bad" => E.err
     /\ IF E.err THEN E.t = "null"
        ELSE E.t = "obj" /\ (r.st = "ok" => E.same /\ IF E.tree.t = "deep" THEN Denotes(E.c, r.v) ELSE Same(r.v, E.tree, 2))
  /\ UNCHANGED m
Prints ==
  /\ E.op = "print"
  /\ Denotes(E.c, E.v)
  /\ ParseAny(E.ind).st = "ok" /\ ParseAny(E.def).st = "ok"
  /\ Dense(E.ind) = Dense(E.c) /\ Dense(E.def) = Dense(E.c)
  /\ E.st = E.c /\ E.same
  /\ Same(E.back, E.v, 8) /\ Same(E.backind, E.v, 8)
  /\ Len(E.sub) = Len(E.v.v)
  /\ \A j \in 1..Len(E.sub) : Denotes(E.sub[j], E.v.v[j]) /\ ParseAny(E.subi[j]).st = "ok" /\ Dense(E.subi[j]) = Dense(E.sub[j])
  /\ UNCHANGED m

SeenDoc(v, err, o, judge) ==
  /\ o.t = v.t
  /\ judge => o.err = err
  /\ o.code /\ MsgOk(o.err, o.msg)
  /\ v.t = "obj" => o.size = Len(v.k)
  /\ Denotes(o.text, v)
  /\ \A j \in 1..Len(o.mem) :
       LET x == o.mem[j]
           at == IF v.t = "obj" THEN KeyAt(v, x.k) ELSE 0 IN
       /\ x.has = (at # 0) /\ x.got = (at # 0)
       /\ at # 0 => Same(x.v, v.v[at], 2)
Seen(b) == /\ \A d \in 1..Docs : SeenDoc(b.r[d], b.err[d], E.docs[d], TRUE)
           /\ \A q \in 1..Vars : Same(E.vars[q], b.r[Docs + q], 2)
Tree == /\ E.op \notin {"print", "end", "crash"} /\ "docs" \in DOMAIN E
        /\ Allowed(m, E)
        /\ LET r == JEffect(m, E) IN
           /\ E.ex = r.ex
           /\ E.op = "at" /\ ~r.ex => Same(E.v, Get(m, E.d), 2)
           /\ Seen(r.m) = TRUE
           /\ m' = r.m
End == E.op = "end" /\ E.blocks = 0 /\ UNCHANGED m
Next == \/ i <= Len(Hist[h]) /\ (Text \/ Prints \/ Tree \/ End) /\ i' = i + 1 /\ UNCHANGED h
        \/ i > Len(Hist[h]) /\ UNCHANGED vars
Spec == TInit /\ [][Next]_vars
=============================================================================
