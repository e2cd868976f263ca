------------------------------ MODULE Strings -------------------------------
(* Several Caitlyn::String objects as sequences of code points; one operation per public edit. *)
EXTENDS Text

CONSTANT Regs
VARIABLE s                       \* 1..Regs -> text

\* What an operation e does to the strings t: the strings afterwards, and whether it is refused.
\* A refused operation changes nothing.
Put(t, d, v) == [st |-> [t EXCEPT ![d] = v], ex |-> FALSE]
Same(t) == [st |-> t, ex |-> FALSE]
Refused(t) == [st |-> t, ex |-> TRUE]
Effect(t, e) ==
  CASE e.op = "set"      -> Put(t, e.d, e.text)
    [] e.op = "setn"     -> Put(t, e.d, Times(e.n, e.cp))
    [] e.op = "append"   -> Put(t, e.d, t[e.d] \o e.text)
    [] e.op = "pluseq"   -> Put(t, e.d, t[e.d] \o t[e.a])
    [] e.op = "cat"      -> Put(t, e.d, t[e.a] \o t[e.b])
    [] e.op = "cats"     -> Put(t, e.d, t[e.a] \o e.text)
    [] e.op = "push"     -> Put(t, e.d, Append(t[e.d], e.cp))
    [] e.op = "pushown"  -> Put(t, e.d, Append(t[e.d], t[e.d][e.pos + 1]))
    [] e.op = "appendn"  -> Put(t, e.d, t[e.d] \o Times(e.n, e.cp))
    [] e.op = "appendown" -> Put(t, e.d, t[e.d] \o Times(e.n, t[e.d][e.pos + 1]))
    [] e.op = "insert"   -> IF e.pos > Len(t[e.d]) THEN Refused(t) ELSE Put(t, e.d, Insert(t[e.d], e.pos, e.text))
    [] e.op = "inserts"  -> IF e.pos > Len(t[e.d]) THEN Refused(t) ELSE Put(t, e.d, Insert(t[e.d], e.pos, t[e.a]))
    [] e.op = "insertn"  -> IF e.pos > Len(t[e.d]) THEN Refused(t) ELSE Put(t, e.d, Insert(t[e.d], e.pos, Times(e.n, e.cp)))
    [] e.op = "insertown" -> Put(t, e.d, Insert(t[e.d], e.pos, Times(e.n, t[e.d][e.k + 1])))
    [] e.op = "setat"    -> IF e.pos >= Len(t[e.d]) THEN Refused(t) ELSE Put(t, e.d, [t[e.d] EXCEPT ![e.pos + 1] = e.cp])
    [] e.op = "at"       -> IF e.pos >= Len(t[e.d]) THEN Refused(t) ELSE Same(t)
    [] e.op = "substr"   -> IF e.pos > Len(t[e.a]) THEN Refused(t)
                            ELSE Put(t, e.d, IF e.n = NPos THEN From(t[e.a], e.pos) ELSE Slice(t[e.a], e.pos, e.n))
    [] e.op = "clear"    -> Put(t, e.d, <<>>)
    [] e.op = "copy"     -> Put(t, e.d, t[e.a])
    [] e.op = "swap"     -> [st |-> [t EXCEPT ![e.d] = t[e.a], ![e.a] = t[e.d]], ex |-> FALSE]
    \* what a moved-from string holds is left open
    [] e.op = "move"     -> [st |-> IF e.d = e.a THEN t ELSE [t EXCEPT ![e.d] = t[e.a], ![e.a] = e.left], ex |-> FALSE]

Init == s = [k \in 1..Regs |-> <<>>]
Do(e) == s' = Effect(s, e).st
=============================================================================
