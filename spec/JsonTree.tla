------------------------------ MODULE JsonTree ------------------------------
(* Documents and detached values as a state machine.  Places 1..Docs are documents (a root value and an error mark), the    *)
(* places after them detached values.  A location is [p |-> place, path |-> steps], a step [k |-> key] or [n |-> index].     *)
EXTENDS JsonText
CONSTANTS Docs, Vars
Places == 1..(Docs + Vars)
EmptyObj == ObjV(<<>>, <<>>)
\* m: root value of every place, error mark of every document
M0 == [r |-> [p \in Places |-> IF p <= Docs THEN EmptyObj ELSE Null], err |-> [d \in 1..Docs |-> FALSE]]

IsKey(st) == "k" \in DOMAIN st
RECURSIVE Pad(_, _)
Pad(a, n) == IF Len(a) > n THEN a ELSE Pad(Append(a, Null), n)
\* mutable access makes the step exist, turning the value into an object or array if it is none
Ens(v, st) == IF IsKey(st) THEN LET o == IF v.t = "obj" THEN v ELSE EmptyObj IN IF KeyAt(o, st.k) = 0 THEN Put(o, st.k, Null) ELSE o
              ELSE ArrV(Pad(IF v.t = "arr" THEN v.a ELSE <<>>, st.n))
Has(v, st) == IF IsKey(st) THEN v.t = "obj" /\ KeyAt(v, st.k) # 0 ELSE v.t = "arr" /\ st.n < Len(v.a)
Child(v, st) == IF IsKey(st) THEN v.v[KeyAt(v, st.k)] ELSE v.a[st.n + 1]
WithChild(v, st, c) == IF IsKey(st) THEN Put(v, st.k, c) ELSE [v EXCEPT !.a[st.n + 1] = c]
RECURSIVE EnsureAt(_, _)
EnsureAt(v, path) == IF path = <<>> THEN v ELSE LET w == Ens(v, Head(path)) IN WithChild(w, Head(path), EnsureAt(Child(w, Head(path)), Tail(path)))
RECURSIVE ExistsAt(_, _)
ExistsAt(v, path) == path = <<>> \/ (Has(v, Head(path)) /\ ExistsAt(Child(v, Head(path)), Tail(path)))
RECURSIVE GetAt(_, _)
GetAt(v, path) == IF path = <<>> THEN v ELSE GetAt(Child(v, Head(path)), Tail(path))
RECURSIVE SetAt(_, _, _)
SetAt(v, path, x) == IF path = <<>> THEN x ELSE WithChild(v, Head(path), SetAt(Child(v, Head(path)), Tail(path), x))

There(m, l) == ExistsAt(m.r[l.p], l.path)
Ensure(m, l) == [m EXCEPT !.r[l.p] = EnsureAt(@, l.path)]
Get(m, l) == GetAt(m.r[l.p], l.path)
SetM(m, l, x) == [m EXCEPT !.r[l.p] = SetAt(@, l.path, x)]
Appended(v, x) == ArrV(Append(IF v.t = "arr" THEN v.a ELSE <<>>, x))
Inside(a, b) == a.p = b.p /\ Len(a.path) >= Len(b.path) /\ SubSeq(a.path, 1, Len(b.path)) = b.path     \* a within b

Ok(m) == [m |-> m, ex |-> FALSE]
Refused(m) == [m |-> m, ex |-> TRUE]
\* e: [op, ...]; the result is the new state and whether the operation is refused with an exception
JEffect(m, e) ==
  CASE e.op = "set"     -> Ok(SetM(Ensure(m, e.d), e.d, e.v))
    [] e.op = "touch"   -> Ok(Ensure(m, e.d))
    [] e.op = "at"      -> IF There(m, e.d) THEN Ok(m) ELSE Refused(m)
    [] e.op = "append"  -> LET m1 == Ensure(m, e.d) IN Ok(SetM(m1, e.d, Appended(Get(m1, e.d), e.v)))
    [] e.op = "append2" -> LET m1 == Ensure(m, e.d) IN Ok(SetM(m1, e.d, Appended(Appended(Get(m1, e.d), e.v), e.u)))
    [] e.op \in {"assign", "appendfrom", "move"} ->
         LET m1 == Ensure(m, e.d) IN
         IF ~There(m1, e.s) THEN Refused(m1)
         ELSE LET x == Get(m1, e.s) IN
              CASE e.op = "assign"     -> Ok(SetM(m1, e.d, x))
                [] e.op = "appendfrom" -> Ok(SetM(m1, e.d, Appended(Get(m1, e.d), x)))
                [] OTHER               -> IF Inside(e.s, e.d) THEN Ok(SetM(m1, e.d, x)) ELSE Ok(SetM(SetM(m1, e.s, Null), e.d, x))
    [] e.op = "remove"  -> IF m.r[e.d].t = "obj" THEN Ok([m EXCEPT !.r[e.d] = Del(@, e.k)]) ELSE Ok(m)
    [] e.op = "add"     -> LET l == [p |-> e.d, path |-> <<[k |-> e.k]>>] IN Ok(SetM(Ensure(m, l), l, e.v))
    [] e.op = "addfrom" -> LET l == [p |-> e.d, path |-> <<[k |-> e.k]>>] IN
                           IF There(m, e.s) THEN Ok(SetM(Ensure(m, l), l, Get(m, e.s))) ELSE Refused(m)
    [] e.op = "clear"   -> Ok([m EXCEPT !.r[e.d] = EmptyObj, !.err[e.d] = FALSE])
    [] e.op = "copydoc" -> Ok([m EXCEPT !.r[e.d] = m.r[e.s], !.err[e.d] = m.err[e.s]])
    [] e.op = "movedoc" -> IF e.d = e.s THEN Ok(m)
                           ELSE Ok([m EXCEPT !.r[e.d] = m.r[e.s], !.err[e.d] = m.err[e.s], !.r[e.s] = Null, !.err[e.s] = FALSE])
    [] e.op = "parse"   -> LET r == ParseDoc(e.s) IN
                           IF r.st = "ok" THEN Ok([m EXCEPT !.r[e.d] = r.v, !.err[e.d] = FALSE])
                           ELSE Ok([m EXCEPT !.r[e.d] = Null, !.err[e.d] = TRUE])
\* moving a value into a part of itself is not an operation
Allowed(m, e) == e.op = "move" => ~(Inside(e.d, e.s) /\ e.d # e.s)
=============================================================================
