-------------------------------- MODULE TText --------------------------------
(* Recorded formatting, builder histories and text utility calls are those of Format, Builder and TextUtil. *)
EXTENDS Builder, TextUtil, Json, IOUtils, TLC

Hist == ndJsonDeserialize(IOEnv.TRACE_FILE)
Regs == 3
VARIABLES b, h, i
vars == <<b, h, i>>
E == Hist[h][i]
TInit == h \in 1..Len(Hist) /\ i = 1 /\ b = [k \in 1..Regs |-> Absent]

Fmt == /\ E.op = "fmt"
       /\ LET f == Formatted(E.t, E.args) IN
          CASE f.kind = "ok" -> ~E.ex /\ E.out = f.out
            [] f.kind = "refused" -> E.ex
            [] OTHER -> TRUE
       /\ UNCHANGED b
Util == /\ CASE E.op = "split" -> IsSplit(E.t, E.d, E.out)
             [] E.op = "repeat" -> E.out = Rep(E.t, E.n)
             [] E.op = "kmp" -> E.r = HasText(E.t, E.p)
             [] E.op = "unesc" -> E.out = Unescaped(E.t)
             [] E.op = "space" -> E.first = FirstNonSpace(E.t) /\ E.last = LastNonSpace(E.t) /\ E.num = AllDigits(E.t)
             [] OTHER -> FALSE
        /\ UNCHANGED b
Build == /\ E.op \in {"new", "copy", "move", "drop", "newf", "append", "line"}
         /\ LET r == BEffect(b, E) IN
            /\ E.ex = r.ex
            /\ b' = r.st
            /\ E.b = r.st
Next == \/ i <= Len(Hist[h]) /\ (Fmt \/ Util \/ Build) /\ i' = i + 1 /\ UNCHANGED h
        \/ i > Len(Hist[h]) /\ UNCHANGED vars
Spec == TInit /\ [][Next]_vars
=============================================================================
