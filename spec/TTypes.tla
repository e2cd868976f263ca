------------------------------ MODULE TTypes ------------------------------
(* What the traits of the library said about the types of a generated program. *)
EXTENDS Types, Json, IOUtils, TLC
Hist == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES h, i
vars == <<h, i>>
E == Hist[h][i]
Bool01(b) == IF b THEN 1 ELSE 0
GoodIs(t) == \A p \in DOMAIN E.is : Decided(p, t) => E.is[p] = Category(p, t)
GoodOps(t) == \A o \in OpKinds : OpGradeKnown(o, t) => /\ E.ops[o] = OpPredicate("any", o, t)
                                                       /\ E.ops["Trivially" \o o] = OpPredicate("t", o, t)
                                                       /\ E.ops["Nothrow" \o o] = OpPredicate("n", o, t)
GoodHas(t) == \A o \in OpNames : OpDecided(o, t) => E.has[o] = HasOp(o, t)
GoodMem(t) == MemDecided(t) => \A m \in MemberNames : E.mem[m] = HasMember(m, t)
TransformNames == {"AddConst", "AddVolatile", "AddCV", "RemoveConst", "RemoveVolatile", "RemoveCV", "RemoveReference", "RemovePointer", "AddLValueReference", "AddRValueReference", "AddPointer",
                   "MakeSigned", "MakeUnsigned", "ForwardL", "ForwardR", "Movable"}
GoodTo(t) == /\ \A n \in TransformNames : Applicable(n, t) => n \in DOMAIN E.to /\ E.to[n] = Transform(n, t)
             /\ "RequiredTrue" \in DOMAIN E.to /\ E.to.RequiredTrue = t /\ "RequiredFalse" \notin DOMAIN E.to
GoodNum(t) == /\ E.rank = Rank(t) /\ E.extent = Extent(t)
              /\ ("align" \in DOMAIN E => E.align = E["alignof"])
GoodType == LET t == E.t IN GoodIs(t) /\ GoodOps(t) /\ GoodHas(t) /\ GoodMem(t) /\ GoodTo(t) /\ GoodNum(t)
\* Assignable was asked for an lvalue of t
GoodPair == LET t == E.t u == E.u lt == T0("lref", "", <<RemoveReference(t)>>) IN
            /\ E.same = Bool01(Same(t, u)) /\ E.different = Bool01(~Same(t, u))
            /\ E.base = Bool01(BaseOf(t, u))
            /\ (ConvDecided(t, u) => E.conv = Bool01(Convertible(t, u)))
            /\ (Referenceable(t) /\ AssignDecided(lt, u) => E.assign = Bool01(Assignable(lt, u)))
\* what is wrong with a rejected answer, for the reader of the output
Wrong(t) == {<<"is", p>> : p \in {p \in DOMAIN E.is : Decided(p, t) /\ E.is[p] # Category(p, t)}}
       \cup {<<"ops", o>> : o \in {o \in OpKinds : OpGradeKnown(o, t) /\ ~(E.ops[o] = OpPredicate("any", o, t) /\ E.ops["Trivially" \o o] = OpPredicate("t", o, t) /\ E.ops["Nothrow" \o o] = OpPredicate("n", o, t))}}
       \cup {<<"has", o>> : o \in {o \in OpNames : OpDecided(o, t) /\ E.has[o] # HasOp(o, t)}}
       \cup {<<"mem", m>> : m \in {m \in MemberNames : MemDecided(t) /\ E.mem[m] # HasMember(m, t)}}
       \cup {<<"to", n>> : n \in {n \in TransformNames : Applicable(n, t) /\ ~(n \in DOMAIN E.to /\ E.to[n] = Transform(n, t))}}
Step == \/ E.op = "type" /\ (GoodType \/ ~PrintT(<<"WRONG", E.t, Wrong(E.t)>>)) = TRUE
        \/ E.op = "pair" /\ (GoodPair \/ ~PrintT(<<"WRONG", E>>)) = TRUE
        \/ E.op = "const" /\ E.good = TRUE
Init == h \in 1..Len(Hist) /\ i = 1
Next == \/ i <= Len(Hist[h]) /\ Step /\ i' = i + 1 /\ UNCHANGED h
        \/ i > Len(Hist[h]) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
