------------------------------ MODULE MCTypes ------------------------------
(* All types built from a set of roots with a number of constructors: the laws of the specification, and the types the
   library is asked about. *)
EXTENDS Types, TLC, Json
CONSTANTS Roots, Depth, Emit
VARIABLE t
RootSet == {Fund(n) : n \in Roots \cap FundNames} \cup {User(n) : n \in Roots \cap Users}
AllRoots == (FundNames \ {"char8_t"}) \cup Users
CoreRoots == {"void", "int", "Plain"}

NoArrElem(x) == Void(x) \/ Ref(x) \/ x.k = "fun" \/ (x.k = "arr" /\ x.n = "") \/ (x.k = "user" /\ x.n = "Abstract")
NoResult(x) == x.k \in {"arr", "fun"} \/ (x.k = "user" /\ x.n = "Abstract")
NoArg(x) == Void(x) \/ x.k \in {"arr", "fun"} \/ (x.k = "user" /\ x.n = "Abstract") \/ C(x) \/ V(x)
Constructions(x) ==
     {WithCv(x, c, v) : c \in {C(x), TRUE}, v \in {V(x), TRUE}}
  \cup (IF Ref(x) \/ Abominable(x) THEN {} ELSE {T0("ptr", "", <<x>>)})
  \cup (IF Ref(x) \/ Abominable(x) \/ Void(x) THEN {} ELSE {T0("lref", "", <<x>>), T0("rref", "", <<x>>)})
  \cup (IF NoArrElem(x) THEN {} ELSE {T0("arr", n, <<x>>) : n \in {"", "1", "2", "300"}})
  \cup (IF NoResult(x) THEN {} ELSE {T0("fun", n, <<x>>) : n \in {"", "const", "&", "const&&"}})
  \cup (IF NoArg(x) THEN {} ELSE {T0("fun", "", <<Fund("void"), x>>), T0("fun", "", <<Fund("int"), x, Fund("double")>>)})
  \cup (IF Void(x) \/ Ref(x) THEN {} ELSE {T0("mptr", "", <<User("Plain"), x>>)})
Init == t \in RootSet
Next == t' \in Constructions(t) \ {t}
Spec == Init /\ [][Next]_t
Bounded == TLCGet("level") <= Depth

\* every type has exactly one primary category
OneCategory == \E p \in Primary : Category(p, t) /\ \A q \in Primary \ {p} : ~Category(q, t)
Coherent == /\ Category("Integral", t) = (Category("Character", t) \/ Category("Integer", t) \/ Category("Boolean", t))
            /\ Category("Fundamental", t) = ~Category("Compound", t)
            /\ Category("Fundamental", t) = (Category("Arithmetic", t) \/ Void(t) \/ Category("NullPointer", t))
            /\ Category("Object", t) = ~(Category("Function", t) \/ Category("Reference", t) \/ Void(t))
            /\ (Category("Signed", t) \/ Category("Unsigned", t)) = Category("Arithmetic", t)
            /\ ~(Category("Signed", t) /\ Category("Unsigned", t))
            /\ \A p \in Categories \cup Composite : Category(p, t) = Category(p, WithCv(t, TRUE, TRUE))
\* the transformations are what their names say
Laws == /\ RemoveCV(AddCV(t)) = RemoveCV(t) /\ AddCV(t) = AddConst(AddVolatile(t)) /\ RemoveCV(t) = RemoveConst(RemoveVolatile(t))
        /\ V(RemoveConst(t)) = V(t) /\ ~C(RemoveConst(t)) /\ C(RemoveVolatile(t)) = C(t) /\ ~V(RemoveVolatile(t))
        /\ (t.k \notin {"lref", "rref", "fun"} => C(AddConst(t)) /\ V(AddVolatile(t)) /\ C(AddCV(t)) /\ V(AddCV(t)))
        /\ ~Ref(RemoveReference(t)) /\ RemoveReference(RemoveReference(t)) = RemoveReference(t)
        /\ AddLValueReference(AddRValueReference(t)) = AddLValueReference(t)
        /\ AddRValueReference(AddLValueReference(t)) = AddLValueReference(t)
        /\ AddRValueReference(AddRValueReference(t)) = AddRValueReference(t)
        /\ (Referenceable(t) => AddLValueReference(t).k = "lref" /\ Ref(AddRValueReference(t)) /\ RemoveReference(AddLValueReference(t)) = RemoveReference(t))
        /\ (~Abominable(t) => RemovePointer(AddPointer(t)) = RemoveReference(t))
        /\ AddPointer(AddLValueReference(t)) = AddPointer(t)
        /\ (SignChangeable(t) => /\ Category("Signed", MakeSigned(t)) /\ Category("Unsigned", MakeUnsigned(t))
                                 /\ MakeSigned(MakeUnsigned(t)) = MakeSigned(t) /\ MakeUnsigned(MakeSigned(t)) = MakeUnsigned(t)
                                 /\ (t.n # "char" => t \in {MakeSigned(t), MakeUnsigned(t)}))
        /\ Rank(RemoveCV(t)) = Rank(t) /\ (Rank(t) = 0) = (t.k # "arr")
Answers == /\ \A p \in Categories \cup Composite \cup Properties : Category(p, t) \in BOOLEAN
           /\ \A o \in OpKinds : OpGradeKnown(o, t) => \A w \in {"any", "n", "t"} : OpPredicate(w, o, t) \in BOOLEAN
           /\ \A o \in OpNames : OpDecided(o, t) => HasOp(o, t) \in BOOLEAN
           /\ BaseOf(t, t) = Category("Class", t) /\ Same(t, t)
           /\ (ConvDecided(t, t) /\ t.k = "fund" => Convertible(t, t))
Emitted == Emit /\ Bounded => PrintT("T:" \o ToJson(t))
=============================================================================
