----------------------------- MODULE MCConsole ------------------------------
(* All short histories: nothing is lost, added, reordered or sent to the wrong place; lines are read once each. *)
EXTENDS Console, TLC, Json
CONSTANTS Texts, Inputs, MaxSteps, Emit
MCTexts == {<<>>, <<97>>, <<98, 10>>}
MCInputs == {<<97, 10>>, <<10>>, <<195, 164, 98>>, <<10, 97>>}
VARIABLES s, hist, outs, errs, given, taken      \* outs, errs: texts in call order; taken: lines read
vars == <<s, hist, outs, errs, given, taken>>
Init == s = C0 /\ hist = <<>> /\ outs = <<>> /\ errs = <<>> /\ given = <<>> /\ taken = <<>>
Do(e) == /\ Allowed(s, e) /\ Len(hist) < MaxSteps
         /\ LET r == Effect(s, e) IN
            /\ s' = r.s /\ hist' = Append(hist, e)
            /\ outs' = IF e.op \in {"readLine", "readChar"} THEN Append(outs, e.x)
                       ELSE IF e.op = "write" /\ e.w = "out" THEN Append(outs, e.x) ELSE IF e.op = "writeLine" /\ e.w = "out" THEN outs \o <<e.x, <<Nl>>>>
                       ELSE IF e.op = "newLine" /\ e.w = "out" THEN Append(outs, <<Nl>>) ELSE outs
            /\ errs' = IF e.op = "write" /\ e.w # "out" THEN Append(errs, e.x) ELSE IF e.op = "writeLine" /\ e.w # "out" THEN errs \o <<e.x, <<Nl>>>>
                       ELSE IF e.op = "newLine" /\ e.w # "out" THEN Append(errs, <<Nl>>) ELSE errs
            /\ given' = IF e.op = "feed" THEN given \o e.x ELSE given
            /\ taken' = IF e.op = "readLine" THEN Append(taken, [whole |-> TRUE, x |-> r.res, last |-> ~HasLine(s)])
                        ELSE IF e.op = "readChar" THEN Append(taken, [whole |-> FALSE, x |-> r.res, last |-> ~HasLine(s)]) ELSE taken
Next == \/ \E w \in {"out", "err", "log"} : (\E x \in Texts : Do([op |-> "write", w |-> w, x |-> x]) \/ Do([op |-> "writeLine", w |-> w, x |-> x])) \/ Do([op |-> "newLine", w |-> w])
        \/ (~s.shut /\ \E x \in Inputs : Do([op |-> "feed", x |-> x]))
        \/ (~s.shut /\ Do([op |-> "shut"]))
        \/ \E x \in Texts : Do([op |-> "readLine", x |-> x]) \/ Do([op |-> "readChar", x |-> x])
Spec == Init /\ [][Next]_vars
RECURSIVE Flat(_), Rest(_, _)
Flat(q) == IF q = <<>> THEN <<>> ELSE q[1] \o Flat(Tail(q))
Streams == s.out = Flat(outs) /\ s.err = Flat(errs)
\* what was given is what was taken, line by line, and what is left: g less the lines read
Rest(g, q) == IF q = <<>> THEN g
              ELSE LET k == LineEnd(g, 1)  l == SubSeq(g, 1, k - 1) IN
                   IF (IF q[1].whole THEN q[1].x = l ELSE Len(q[1].x) <= Len(l) /\ q[1].x = SubSeq(l, 1, Len(q[1].x)) /\ (q[1].x = <<>>) = (l = <<>>)) /\ (q[1].last = (k > Len(g)))
                   THEN Rest(SubSeq(g, k + 1, Len(g)), Tail(q)) ELSE <<-1>>
Lines == Rest(given, taken) = s.input /\ \A j \in DOMAIN taken : \A k \in DOMAIN taken[j].x : taken[j].x[k] # Nl
EmitTest == IF Emit THEN PrintT("T:" \o ToJson(hist')) ELSE TRUE
=============================================================================
