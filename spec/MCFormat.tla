------------------------------ MODULE MCFormat ------------------------------
(* All templates up to MaxLen over the characters that mean something, with 0 to 2 arguments: laws of formatting; each template *)
(* is also emitted as an implementation test.  All specifications up to MaxSpec characters: laws of fields.                      *)
EXTENDS Format, TLC, Json
CONSTANTS MaxLen, MaxSpec, Emit
VARIABLES t, q
vars == <<t, q>>
Args == <<<<120, 8364>>, <<121>>>>
A(n) == SubSeq(Args, 1, n)
TC == {LB, RB, 48, 49, 97, Colon}
QC == {60, 62, 94, 48, 51, Dot, 102, 8364, 115}
Init == t = <<>> /\ q = <<>>
Next == \/ Len(t) < MaxLen /\ q = <<>> /\ \E c \in TC : t' = Append(t, c) /\ q' = q
        \/ Len(q) < MaxSpec /\ t = <<>> /\ \E c \in QC : q' = Append(q, c) /\ t' = t
Spec == Init /\ [][Next]_vars

Escape(u) == FlattenSeq([k \in 1..Len(u) |-> IF u[k] \in {LB, RB} THEN <<u[k], u[k]>> ELSE <<u[k]>>])
NoBrace(u) == \A k \in 1..Len(u) : u[k] \notin {LB, RB}
Ok(r) == r.kind = "ok"
Templates == q = <<>> =>
  /\ \A n \in 0..2 :
       /\ Formatted(Escape(t), A(n)) = [kind |-> "ok", out |-> t]              \* escaped text formats to itself
       /\ NoBrace(t) => Formatted(t, A(n)) = [kind |-> "ok", out |-> t]        \* verbatim copying
  \* more arguments never turn an accepted template into a refused one, and explicit references mean the same
  /\ Ok(Formatted(t, A(2))) \/ Formatted(t, A(2)).kind = "open" \/ ~Ok(Formatted(t, A(0)))
  \* a placeholder appended to an accepted template without automatic placeholders takes the first argument
  /\ (Ok(Formatted(t, A(2))) /\ ~\E k \in 1..(Len(t) - 1) : t[k] = LB /\ t[k + 1] \in {RB, Colon}) =>
       (Len(t) > 0 /\ t[Len(t)] \in {LB, RB}) \/ Formatted(t \o <<LB, RB>>, A(2)).out = Formatted(t, A(2)).out \o Args[1]
  \* with one argument all automatic placeholders show it
  /\ Formatted(<<LB, RB>> \o <<LB, RB>>, A(1)).out = Args[1] \o Args[1]
  /\ Formatted(<<LB, RB>> \o <<LB, RB>>, A(2)).out = Args[1] \o Args[2]
  /\ Formatted(<<LB, 49, RB>> \o <<LB, RB>>, A(2)).out = Args[2] \o Args[1]
Vals == {<<>>, <<97>>, <<97, 8364, 97, 97>>, <<51, 46, 49, 52, 49>>, <<45, 55>>}
Fields == t = <<>> => \A v \in Vals :
  LET f == ParseSpec(q)
      r == Field(v, q)
      p == IF f.type = 102 THEN WithPrecision(v, f.prec) ELSE v
  IN r.kind = "ok" =>
     /\ Len(r.out) = (IF Len(p) > f.width THEN Len(p) ELSE f.width)            \* width in characters, never truncated
     /\ LET l == CASE f.align = 60 -> 0 [] f.align = 62 -> Len(r.out) - Len(p) [] OTHER -> (Len(r.out) - Len(p)) \div 2
        IN SubSeq(r.out, l + 1, l + Len(p)) = p /\ \A k \in 1..Len(r.out) : (k <= l \/ k > l + Len(p)) => r.out[k] = f.fill
     /\ f.type = 102 /\ f.prec > 0 => \E k \in 1..Len(p) : p[k] = Dot /\ Len(p) - k = f.prec
     /\ f.type = 102 /\ f.prec = 0 => \A k \in 1..Len(p) : p[k] # Dot
     /\ q = <<>> => r.out = v
EmitTest == IF Emit THEN PrintT("T:" \o ToJson([t |-> t', q |-> q'])) ELSE TRUE
=============================================================================
