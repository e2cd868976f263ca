------------------------------- MODULE Types -------------------------------
(* C29: C++ types as terms, what the language says about them, and how the traits of the library have to answer.

   A term is [k, n, c, v, s]: k the kind, n a name (fundamental or user type, bound of an array, qualifiers of a
   function), c and v the cv-qualification at the top, s the types it is made of:
     fund n        fundamental type (nullptr_t included)        user n        class, union or enumeration
     ptr <<T>>     lref <<T>>     rref <<T>>                    arr n <<T>>   n = "" for an unknown bound
     fun n <<R, A...>>   n: "", "const", "&", "&&", "const&"    mptr <<C, T>> pointer to member of C
   In normal form arrays carry no qualifiers of their own (they are those of the elements); references and functions
   have none. *)
EXTENDS Integers, Sequences

T0(k, n, s) == [k |-> k, n |-> n, c |-> FALSE, v |-> FALSE, s |-> s]
Fund(n) == T0("fund", n, <<>>)
User(n) == T0("user", n, <<>>)

-----------------------------------------------------------------------------
(* The user types of the generated programs. *)
Scoped == {"SEnum", "SEnumB"}
Unscoped == {"UEnum"}
Enums == Scoped \cup Unscoped
Unions == {"Union"}
\* one operator (or member) each: a class named Op_x has just x
OpNames == {"Less", "Greater", "Add", "Subtract", "Multyply", "Divide", "Modulus", "Equal", "NotEqual", "Subscript",
            "Increment", "Decrement", "BitwiseAnd", "BitwiseOr", "BitwiseXor", "LeftShift", "RightShift", "IStream", "OStream"}
MemberNames == {"to_string", "str", "c_str", "ToString"}
OpClass(o) == "Op_" \o o
MemClass(m) == "Mem_" \o m
OpClasses == {OpClass(o) : o \in OpNames}
MemClasses == {MemClass(m) : m \in MemberNames}
\* name -> facts.  e empty, p polymorphic, a abstract, V virtual destructor, L standard layout, t trivially copyable,
\* T trivial, d/D/n default construction: possible, trivial, nothrow; c/.. copy construction; m/.. move construction;
\* x/.. copy assignment; y/.. move assignment; z/.. destruction.
Plain0 == [e |-> FALSE, p |-> FALSE, a |-> FALSE, V |-> FALSE, L |-> TRUE, t |-> TRUE, T |-> TRUE,
           d |-> "t", c |-> "t", m |-> "t", x |-> "t", y |-> "t", z |-> "t"]
\* the operations: "t" trivial (and not throwing), "n" not throwing, "y" possible, "-" impossible
Facts(n) ==
  CASE n = "Plain" -> Plain0
    [] n = "Empty" -> [Plain0 EXCEPT !.e = TRUE]
    [] n = "Union" -> Plain0
    [] n = "Derived" -> [Plain0 EXCEPT !.L = FALSE]
    [] n = "Derived2" -> [Plain0 EXCEPT !.L = FALSE]
    [] n = "PrivD" -> Plain0
    [] n = "Poly" -> [Plain0 EXCEPT !.p = TRUE, !.L = FALSE, !.t = FALSE, !.T = FALSE, !.d = "n", !.c = "n", !.m = "n", !.x = "n", !.y = "n"]
    [] n = "Abstract" -> [Plain0 EXCEPT !.p = TRUE, !.a = TRUE, !.L = FALSE, !.t = FALSE, !.T = FALSE, !.d = "-", !.c = "-", !.m = "-", !.x = "n", !.y = "n"]
    [] n = "VDtor" -> [Plain0 EXCEPT !.p = TRUE, !.V = TRUE, !.L = FALSE, !.t = FALSE, !.T = FALSE, !.d = "n", !.c = "n", !.m = "n", !.x = "n", !.y = "n", !.z = "n"]
    [] n = "MoveOnly" -> [Plain0 EXCEPT !.e = TRUE, !.t = FALSE, !.T = FALSE, !.d = "n", !.c = "-", !.m = "n", !.x = "-", !.y = "n"]
    [] n = "Pinned" -> [Plain0 EXCEPT !.e = TRUE, !.t = FALSE, !.T = FALSE, !.d = "y", !.c = "-", !.m = "-", !.x = "-", !.y = "-"]
    [] n = "NoDefault" -> [Plain0 EXCEPT !.e = TRUE, !.T = FALSE, !.d = "-"]
    [] n = "Throwing" -> [Plain0 EXCEPT !.e = TRUE, !.t = FALSE, !.T = FALSE, !.d = "y", !.c = "y", !.m = "n", !.x = "y", !.y = "n"]
    [] n = "DtorOnly" -> [Plain0 EXCEPT !.e = TRUE, !.t = FALSE, !.T = FALSE, !.d = "n", !.c = "n", !.m = "n", !.x = "t", !.y = "t", !.z = "n"]
    [] n = "DtorThrows" -> [Plain0 EXCEPT !.e = TRUE, !.t = FALSE, !.T = FALSE, !.d = "y", !.c = "y", !.m = "y", !.x = "t", !.y = "t", !.z = "y"]
    [] n = "NoDtor" -> [Plain0 EXCEPT !.e = TRUE, !.t = FALSE, !.T = FALSE, !.d = "-", !.c = "-", !.m = "-", !.z = "-"]
    [] n = "CopyTriv" -> [Plain0 EXCEPT !.e = TRUE, !.t = FALSE, !.T = FALSE, !.d = "n", !.c = "t", !.m = "t", !.x = "n", !.y = "n", !.z = "t"]
    [] n = "MoveAssignTriv" -> [Plain0 EXCEPT !.e = TRUE, !.t = FALSE, !.T = FALSE, !.d = "y", !.c = "y", !.m = "y", !.x = "y", !.y = "t", !.z = "t"]
    [] n = "CopyAssignTriv" -> [Plain0 EXCEPT !.e = TRUE, !.t = FALSE, !.T = FALSE, !.d = "n", !.c = "n", !.m = "n", !.x = "t", !.y = "n", !.z = "t"]
    [] n = "MoveCtorTriv" -> [Plain0 EXCEPT !.e = TRUE, !.t = FALSE, !.T = FALSE, !.d = "y", !.c = "y", !.m = "t", !.x = "y", !.y = "y", !.z = "t"]
    [] n = "CopyCtorTriv" -> [Plain0 EXCEPT !.e = TRUE, !.t = FALSE, !.T = FALSE, !.d = "y", !.c = "t", !.m = "n", !.x = "n", !.y = "n", !.z = "t"]
    [] n = "DefTriv" -> [Plain0 EXCEPT !.e = TRUE, !.t = FALSE, !.T = FALSE, !.d = "t", !.c = "y", !.m = "y", !.x = "y", !.y = "y", !.z = "t"]
    [] n = "NoAssign" -> [Plain0 EXCEPT !.e = TRUE, !.t = TRUE, !.T = TRUE, !.d = "t", !.c = "t", !.m = "t", !.x = "-", !.y = "-", !.z = "t"]
    [] n = "NoCopyAssign" -> [Plain0 EXCEPT !.e = TRUE, !.t = TRUE, !.T = TRUE, !.d = "t", !.c = "t", !.m = "t", !.x = "-", !.y = "t", !.z = "t"]
    [] n = "AssignOnly" -> [Plain0 EXCEPT !.e = TRUE, !.t = TRUE, !.T = TRUE, !.d = "t", !.c = "-", !.m = "-", !.x = "t", !.y = "t", !.z = "t"]
    [] n = "MoveThrows" -> [Plain0 EXCEPT !.e = TRUE, !.t = FALSE, !.T = FALSE, !.d = "n", !.c = "n", !.m = "y", !.x = "n", !.y = "y", !.z = "t"]
    [] n = "CopyNothrow" -> [Plain0 EXCEPT !.e = TRUE, !.t = FALSE, !.T = FALSE, !.d = "y", !.c = "n", !.m = "y", !.x = "n", !.y = "y", !.z = "t"]
    [] n = "NoMoveAssign" -> [Plain0 EXCEPT !.e = TRUE, !.t = FALSE, !.T = FALSE, !.d = "n", !.c = "n", !.m = "n", !.x = "n", !.y = "-", !.z = "t"]
    [] n = "NoMoveCtor" -> [Plain0 EXCEPT !.e = TRUE, !.t = FALSE, !.T = FALSE, !.d = "n", !.c = "n", !.m = "-", !.x = "n", !.y = "n", !.z = "t"]
    [] n = "Conv" -> [Plain0 EXCEPT !.e = TRUE]                  \* operator int() const
    [] n = "FromInt" -> [Plain0 EXCEPT !.e = TRUE, !.T = FALSE, !.d = "-"]        \* FromInt(int)
    [] n = "Explicit" -> [Plain0 EXCEPT !.e = TRUE, !.T = FALSE, !.d = "-"]       \* explicit Explicit(int)
    [] OTHER -> [Plain0 EXCEPT !.e = TRUE]                       \* Op_x, Mem_x
BaseClasses == {"Plain", "Empty", "Derived", "Derived2", "PrivD", "Poly", "Abstract", "VDtor", "MoveOnly", "Pinned", "NoDefault", "Throwing", "DtorOnly", "DtorThrows", "NoDtor", "CopyTriv", "MoveAssignTriv", "CopyAssignTriv", "MoveCtorTriv", "CopyCtorTriv", "DefTriv", "NoAssign", "NoCopyAssign", "AssignOnly", "MoveThrows", "CopyNothrow", "NoMoveAssign", "NoMoveCtor", "Conv", "FromInt", "Explicit"}
Classes == BaseClasses \cup OpClasses \cup MemClasses
Users == Classes \cup Unions \cup Enums
\* direct bases; PrivD has its base in private
BasesOf(n) == CASE n = "Derived" -> {"Plain"} [] n = "Derived2" -> {"Derived"} [] n = "PrivD" -> {"Plain"} [] OTHER -> {}
RECURSIVE Bases(_)
Bases(n) == BasesOf(n) \cup UNION {Bases(b) : b \in BasesOf(n)}
PublicBases(n) == IF n = "PrivD" THEN {} ELSE Bases(n)

-----------------------------------------------------------------------------
Chars == {"char", "signed char", "unsigned char", "wchar_t", "char16_t", "char32_t", "char8_t"}
SignedInts == {"signed char", "short", "int", "long", "long long"}
UnsignedInts == {"unsigned char", "unsigned short", "unsigned int", "unsigned long", "unsigned long long"}
Ints == SignedInts \cup UnsignedInts
Floats == {"float", "double", "long double"}
Integrals == Chars \cup Ints \cup {"bool"}
Arith == Integrals \cup Floats
\* char is signed and wchar_t is a signed type on this platform
SignedNames == SignedInts \cup Floats \cup {"char", "wchar_t"}
FundNames == Arith \cup {"void", "nullptr_t"}

Is(t, k) == t.k = k
IsFund(t, names) == t.k = "fund" /\ t.n \in names
Ref(t) == t.k \in {"lref", "rref"}
Abominable(t) == t.k = "fun" /\ t.n # ""
Void(t) == IsFund(t, {"void"})

\* cv-qualification: goes to the elements of an array, does nothing to references and functions
RECURSIVE WithCv(_, _, _)
WithCv(t, c, v) == IF t.k \in {"lref", "rref", "fun"} THEN t
                   ELSE IF t.k = "arr" THEN [t EXCEPT !.s = <<WithCv(t.s[1], c, v)>>]
                   ELSE [t EXCEPT !.c = c, !.v = v]
RECURSIVE C(_)
C(t) == IF t.k = "arr" THEN C(t.s[1]) ELSE t.c
RECURSIVE V(_)
V(t) == IF t.k = "arr" THEN V(t.s[1]) ELSE t.v
AddConst(t) == WithCv(t, TRUE, V(t))
AddVolatile(t) == WithCv(t, C(t), TRUE)
AddCV(t) == WithCv(t, TRUE, TRUE)
RemoveConst(t) == WithCv(t, FALSE, V(t))
RemoveVolatile(t) == WithCv(t, C(t), FALSE)
RemoveCV(t) == WithCv(t, FALSE, FALSE)
RemoveReference(t) == IF Ref(t) THEN t.s[1] ELSE t
RemovePointer(t) == IF t.k = "ptr" THEN t.s[1] ELSE t
Referenceable(t) == ~Void(t) /\ ~Abominable(t)
AddLValueReference(t) == IF ~Referenceable(t) THEN t ELSE T0("lref", "", <<RemoveReference(t)>>)
AddRValueReference(t) == IF ~Referenceable(t) \/ Ref(t) THEN t ELSE T0("rref", "", <<t>>)
AddPointer(t) == IF Abominable(t) THEN t ELSE T0("ptr", "", <<RemoveReference(t)>>)
\* only character and standard integer types without qualifiers are converted
SignedOf(n) == CASE n \in {"char", "unsigned char", "signed char"} -> "signed char" [] n = "unsigned short" -> "short" [] n = "unsigned int" -> "int"
                 [] n = "unsigned long" -> "long" [] n = "unsigned long long" -> "long long" [] OTHER -> n
UnsignedOf(n) == CASE n \in {"char", "signed char", "unsigned char"} -> "unsigned char" [] n = "short" -> "unsigned short" [] n = "int" -> "unsigned int"
                 [] n = "long" -> "unsigned long" [] n = "long long" -> "unsigned long long" [] OTHER -> n
SignChangeable(t) == t.k = "fund" /\ t.n \in Ints \cup {"char"} /\ ~t.c /\ ~t.v
MakeSigned(t) == Fund(SignedOf(t.n))
MakeUnsigned(t) == Fund(UnsignedOf(t.n))

Transform(name, t) ==
  CASE name = "AddConst" -> AddConst(t) [] name = "AddVolatile" -> AddVolatile(t) [] name = "AddCV" -> AddCV(t)
    [] name = "RemoveConst" -> RemoveConst(t) [] name = "RemoveVolatile" -> RemoveVolatile(t) [] name = "RemoveCV" -> RemoveCV(t)
    [] name = "RemoveReference" -> RemoveReference(t) [] name = "RemovePointer" -> RemovePointer(t)
    [] name = "AddLValueReference" -> AddLValueReference(t) [] name = "AddRValueReference" -> AddRValueReference(t)
    [] name = "AddPointer" -> AddPointer(t)
    [] name = "MakeSigned" -> MakeSigned(t) [] name = "MakeUnsigned" -> MakeUnsigned(t)
    \* Forward<T>(lvalue) and MakeMovable(lvalue of T), as types of the expressions
    \* (a call that gives an rvalue reference to a function is an lvalue)
    [] name \in {"ForwardL", "ForwardR", "Movable"} /\ RemoveReference(t).k = "fun" -> AddLValueReference(t)
    [] name = "ForwardL" -> AddRValueReference(t)
    [] name = "ForwardR" -> AddRValueReference(t)
    [] name = "Movable" -> T0("rref", "", <<RemoveReference(t)>>)
Applicable(name, t) ==
  CASE name \in {"MakeSigned", "MakeUnsigned"} -> SignChangeable(t)
    [] name \in {"ForwardL", "Movable"} -> Referenceable(t)
    [] name = "ForwardR" -> Referenceable(t) /\ t.k # "lref" /\ RemoveReference(t).k # "fun"
    [] OTHER -> TRUE

-----------------------------------------------------------------------------
(* Categories *)
Scalar(t) == \/ t.k \in {"ptr", "mptr"}
             \/ IsFund(t, FundNames \ {"void"})
             \/ t.k = "user" /\ t.n \in Enums
IsObject(t) == ~Ref(t) /\ ~Void(t) /\ t.k # "fun"
RECURSIVE Elem(_)
Elem(t) == IF t.k = "arr" THEN Elem(t.s[1]) ELSE t
IsClassT(t) == t.k = "user" /\ t.n \in Classes
IsClassLike(t) == t.k = "user" /\ t.n \notin Enums
ClassFact(t, P(_)) == IsClassLike(t) /\ P(Facts(t.n))

\* how well an operation of the type goes: "-" impossible, "y", "n" (nothrow), "t" (trivial, and nothrow)
RECURSIVE Destruct(_)
Destruct(t) == IF Ref(t) \/ Scalar(t) THEN "t"
               ELSE IF t.k = "arr" /\ t.n # "" THEN Destruct(t.s[1])
               ELSE IF IsClassLike(t) THEN Facts(t.n).z ELSE "-"
RECURSIVE DefaultConstruct(_)
DefaultConstruct(t) == IF Scalar(t) THEN "t"
                       ELSE IF t.k = "arr" /\ t.n # "" THEN (IF Destruct(t) = "t" THEN DefaultConstruct(t.s[1]) ELSE "?")
                       ELSE IF IsClassLike(t) THEN Facts(t.n).d ELSE "-"
\* from const T& and from T&&
CopyConstruct(t) == IF Scalar(t) \/ t.k = "lref" THEN "t"
                    ELSE IF t.k = "rref" THEN (IF t.s[1].k = "fun" THEN "t" ELSE "-")
                    ELSE IF IsClassLike(t) THEN (IF t.v THEN "-" ELSE Facts(t.n).c) ELSE "-"
MoveConstruct(t) == IF Scalar(t) \/ Ref(t) THEN "t"
                    ELSE IF IsClassLike(t) THEN (IF t.v THEN "-" ELSE IF t.c THEN "?" ELSE Facts(t.n).m) ELSE "-"
\* to T& from const T& and from T&&; a reference stands for what it refers to, which keeps its own constness
CopyAssign(t) == LET u == RemoveReference(t) IN
                 IF Scalar(u) THEN (IF u.c THEN "-" ELSE "t")
                 ELSE IF IsClassLike(u) THEN (IF u.c \/ u.v THEN "-" ELSE IF Ref(t) THEN "?" ELSE Facts(u.n).x) ELSE "-"
MoveAssign(t) == LET u == RemoveReference(t) IN
                 IF Scalar(u) THEN (IF u.c THEN "-" ELSE "t")
                 ELSE IF IsClassLike(u) THEN (IF u.c \/ u.v THEN "-" ELSE IF Ref(t) THEN "?" ELSE Facts(u.n).y) ELSE "-"
AtLeast(g, want) == CASE want = "any" -> g # "-" [] want = "t" -> g = "t" [] want = "n" -> g \in {"t", "n"}

TriviallyCopyable(t) == LET e == Elem(t) IN Scalar(e) \/ ClassFact(e, LAMBDA f : f.t)
Trivial(t) == LET e == Elem(t) IN Scalar(e) \/ ClassFact(e, LAMBDA f : f.T)
StandardLayout(t) == LET e == Elem(t) IN Scalar(e) \/ ClassFact(e, LAMBDA f : f.L)

-----------------------------------------------------------------------------
(* Operators.  Decided for arithmetic types, enumerations and classes, and references to them.  Both operands are T
   values; the increments and the stream input take an lvalue. *)
OpDecided(o, t) == LET u == RemoveReference(t) IN
  \/ u.k = "user" /\ ~u.v /\ u.n \notin Unions \cup {"Conv", "FromInt", "Explicit"} /\ (u.n \in Unscoped => o \notin {"IStream", "OStream"})
     /\ ~(u.n = OpClass("Equal") /\ o = "NotEqual")          \* since C++20 != follows from ==
  \/ IsFund(u, Arith \cup {"void"}) /\ ~(u.n = "bool" /\ o \in {"Increment", "Decrement"}) /\ ~(u.v /\ o \in {"Increment", "Decrement", "IStream", "OStream"})
     /\ (o = "OStream" => u.n \notin {"char8_t", "char16_t", "char32_t", "wchar_t"})
BinaryArith == {"Less", "Greater", "Add", "Subtract", "Multyply", "Divide", "Equal", "NotEqual"}
Comparisons == {"Less", "Greater", "Equal", "NotEqual"}
IntOnly == {"Modulus", "BitwiseAnd", "BitwiseOr", "BitwiseXor", "LeftShift", "RightShift"}
HasOp(o, t) == LET u == RemoveReference(t) IN
  CASE u.k = "user" /\ u.n \in Classes -> u.n = OpClass(o) /\ (o \in {"Increment", "Decrement", "IStream"} => ~u.c)
    [] u.k = "user" /\ u.n \in Scoped -> o \in Comparisons
    [] u.k = "user" /\ u.n \in Unscoped -> o \in BinaryArith \cup IntOnly
    [] IsFund(u, Arith) -> CASE o \in BinaryArith -> TRUE
                             [] o \in IntOnly -> u.n \in Integrals
                             [] o \in {"Increment", "Decrement"} -> ~u.c
                             [] o = "IStream" -> ~u.c /\ u.n \notin {"wchar_t", "char16_t", "char32_t", "char8_t"}
                             [] o = "OStream" -> TRUE
                             [] OTHER -> FALSE
    [] OTHER -> FALSE
HasMember(m, t) == LET u == RemoveReference(t) IN u.k = "user" /\ u.n = MemClass(m)
MemDecided(t) == ~RemoveReference(t).v

-----------------------------------------------------------------------------
(* The predicates by name *)
Categories == {"Void", "NullPointer", "Boolean", "Character", "Integer", "Integral", "Floating", "Array", "Enum", "Union", "Class", "Function", "Pointer", "LValueReference", "RValueReference", "MemberObjectPointer", "MemberFunctionPointer"}
Primary == {"Void", "NullPointer", "Integral", "Floating", "Array", "Enum", "Union", "Class", "Function", "Pointer", "LValueReference", "RValueReference", "MemberObjectPointer", "MemberFunctionPointer"}
Composite == {"Fundamental", "Arithmetic", "Scalar", "Object", "Compound", "Reference", "MemberPointer"}
Properties == {"Const", "Volatile", "Trivial", "TriviallyCopyable", "StandardLayout", "Empty", "Polymorphic", "Abstract", "Signed", "Unsigned", "HasVirtualDestructor"}
OpKinds == {"Constructible", "DefaultConstructible", "CopyConstructible", "MoveConstructible", "CopyAssignable", "MoveAssignable", "Destructible"}
Operations == OpKinds \cup {"Trivially" \o o : o \in OpKinds} \cup {"Nothrow" \o o : o \in OpKinds}
Grade(o, t) == CASE o \in {"Constructible", "DefaultConstructible"} -> DefaultConstruct(t)
                 [] o = "CopyConstructible" -> CopyConstruct(t) [] o = "MoveConstructible" -> MoveConstruct(t)
                 [] o = "CopyAssignable" -> CopyAssign(t) [] o = "MoveAssignable" -> MoveAssign(t) [] o = "Destructible" -> Destruct(t)
\* a constructor of an object that cannot be destroyed quietly is not trivial, nor is it noexcept if the destructor is not:
\* those types have it in their facts

Category(p, t) ==
  CASE p = "Void" -> Void(t) [] p = "NullPointer" -> IsFund(t, {"nullptr_t"}) [] p = "Boolean" -> IsFund(t, {"bool"})
    [] p = "Character" -> IsFund(t, Chars) [] p = "Integer" -> IsFund(t, Ints) [] p = "Integral" -> IsFund(t, Integrals)
    [] p = "Floating" -> IsFund(t, Floats) [] p = "Array" -> Is(t, "arr")
    [] p = "Enum" -> t.k = "user" /\ t.n \in Enums [] p = "Union" -> t.k = "user" /\ t.n \in Unions
    [] p = "Class" -> IsClassT(t) [] p = "Function" -> Is(t, "fun") [] p = "Pointer" -> Is(t, "ptr")
    [] p = "LValueReference" -> Is(t, "lref") [] p = "RValueReference" -> Is(t, "rref")
    [] p = "MemberObjectPointer" -> t.k = "mptr" /\ t.s[2].k # "fun"
    [] p = "MemberFunctionPointer" -> t.k = "mptr" /\ t.s[2].k = "fun"
    [] p = "Fundamental" -> t.k = "fund" [] p = "Compound" -> t.k # "fund"
    [] p = "Arithmetic" -> IsFund(t, Arith) [] p = "Scalar" -> Scalar(t) [] p = "Object" -> IsObject(t)
    [] p = "Reference" -> Ref(t) [] p = "MemberPointer" -> Is(t, "mptr")
    [] p = "Const" -> C(t) [] p = "Volatile" -> V(t)
    [] p = "Trivial" -> Trivial(t) [] p = "TriviallyCopyable" -> TriviallyCopyable(t) [] p = "StandardLayout" -> StandardLayout(t)
    [] p = "Empty" -> t.k = "user" /\ t.n \in Classes /\ Facts(t.n).e
    [] p = "Polymorphic" -> ClassFact(t, LAMBDA f : f.p)
    [] p = "Abstract" -> ClassFact(t, LAMBDA f : f.a)
    [] p = "HasVirtualDestructor" -> ClassFact(t, LAMBDA f : f.V)
    [] p = "Signed" -> IsFund(t, SignedNames) [] p = "Unsigned" -> IsFund(t, Arith \ SignedNames)

\* what compilers and standards do not agree on: copying of volatile classes, of classes that cannot be copied or destroyed at all
Decided(p, t) == CASE p \in Categories \cup Composite -> TRUE
                   [] p \in {"TriviallyCopyable", "Trivial"} -> ~V(t) /\ ~(Elem(t).k = "user" /\ Elem(t).n \in {"Pinned", "NoDtor"})
                   [] OTHER -> TRUE
OpPredicate(w, o, t) == AtLeast(Grade(o, t), w)
OpGradeKnown(o, t) == Grade(o, t) # "?" /\ ~(Destruct(t) = "-" /\ o # "Destructible")

RECURSIVE Rank(_)
Rank(t) == IF t.k = "arr" THEN 1 + Rank(t.s[1]) ELSE 0
\* bounds are names in the terms
Bound(n) == CASE n = "" -> 0 [] n = "1" -> 1 [] n = "2" -> 2 [] n = "3" -> 3 [] n = "300" -> 300
Extent(t) == IF t.k = "arr" THEN Bound(t.n) ELSE 0

-----------------------------------------------------------------------------
(* Relations *)
Same(t, u) == t = u
BaseOf(b, d) == IsClassT(b) /\ IsClassT(d) /\ (b.n = d.n \/ b.n \in Bases(d.n))
\* Convertible(t, u): an rvalue (an lvalue for an lvalue reference) of t initialises a u.  Decided for scalars, void, classes
\* and pointers to these as sources and targets.
SimplePtr(t) == t.k = "ptr" /\ t.s[1].k \in {"fund", "user"}
MoreCv(t, u) == (t.c => u.c) /\ (t.v => u.v)
PtrConv(a, b) == LET x == RemoveCV(a) y == RemoveCV(b) IN MoreCv(a, b) /\ (x = y \/ Void(y) \/ (IsClassT(x) /\ IsClassT(y) /\ y.n \in PublicBases(x.n)))
ConvDecided(t, u) == /\ (t.k \in {"fund", "user"} \/ SimplePtr(t)) /\ (u.k \in {"fund", "user"} \/ SimplePtr(u))
                     /\ ~t.v /\ ~u.v /\ ~t.c
                     /\ ~(t.k = "user" /\ t = RemoveCV(u) /\ t.n \in Classes /\ Facts(t.n).z = "-")
                     /\ ~(IsClassT(u) /\ Facts(u.n).z = "-")
\* construction of a class from an int-like value: only the one with an implicit constructor
Convertible(t, u0) == LET u == RemoveCV(u0) IN
  CASE Void(t) \/ Void(u) -> Void(t) /\ Void(u)
    [] IsClassT(u) -> \/ IsClassT(t) /\ t.n = u.n /\ Facts(t.n).m # "-"
                      \/ IsClassT(t) /\ u.n \in PublicBases(t.n) /\ Facts(u.n).c # "-"
                      \/ u.n = "FromInt" /\ (IsFund(t, Arith) \/ (t.k = "user" /\ t.n \in Unscoped))
    [] IsClassT(t) -> t.n = "Conv" /\ IsFund(u, Arith)
    [] u.k = "user" -> t = u
    [] t.k = "user" -> t.n \in Unscoped /\ IsFund(u, Arith)
    [] SimplePtr(u) -> (SimplePtr(t) /\ PtrConv(t.s[1], u.s[1])) \/ IsFund(t, {"nullptr_t"})
    [] SimplePtr(t) -> IsFund(u, {"bool"})
    [] IsFund(u, {"nullptr_t"}) -> IsFund(t, {"nullptr_t"})
    [] IsFund(t, {"nullptr_t"}) -> FALSE       \* to bool only by direct initialisation
    [] OTHER -> IsFund(t, Arith) /\ IsFund(u, Arith)
\* Assignable(t, u): declval<T>() = declval<U>().  Decided for scalar lvalues and class values
AssignDecided(t, u) == ConvDecided(u, RemoveReference(t)) /\ ~RemoveReference(t).c /\ (IF t.k = "lref" THEN Scalar(t.s[1]) ELSE Scalar(t))
Assignable(t, u) == t.k = "lref" /\ Convertible(u, t.s[1])
=============================================================================
