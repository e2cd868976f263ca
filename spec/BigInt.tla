------------------------------- MODULE BigInt -------------------------------
(* A machine with a few registers holding big integers; one action per operation of Caitlyn's BigInteger. *)
EXTENDS BigNat

CONSTANT Regs                    \* number of registers
VARIABLE regs                    \* 1..Regs -> integers

BigIntInit == regs = [k \in 1..Regs |-> Int0]

Put(d, v) == regs' = [regs EXCEPT ![d] = v]
Keep == UNCHANGED regs

\* make a register from text: accepted exactly if it is a number
SetText(d, t, refused) == IF IsNumber(t) THEN ~refused /\ Put(d, ParseInt(t)) ELSE refused /\ Keep

Add(d, a, b) == Put(d, IAdd(regs[a], regs[b]))
Sub(d, a, b) == Put(d, ISub(regs[a], regs[b]))
Mul(d, a, b) == Put(d, IMul(regs[a], regs[b]))
Sqr(d, a) == Put(d, IMul(regs[a], regs[a]))
Abs(d, a) == Put(d, IAbs(regs[a]))
Copy(d, a) == Put(d, regs[a])
\* what a moved-from number holds is left open
Move(d, a, left) == regs' = IF d = a THEN regs ELSE [regs EXCEPT ![d] = regs[a], ![a] = left]
Pow(d, a, e, refused) == IF e < 0 THEN refused /\ Keep ELSE ~refused /\ Put(d, IPow(regs[a], e))

\* division is specified by its law: the result is whatever satisfies it (exactly one number does)
Div(d, a, b, refused, q) ==
  IF regs[b] = Int0 THEN refused /\ Keep
  ELSE ~refused /\ IsQuotient(regs[a], regs[b], q) /\ Put(d, q)
\* q is the quotient the implementation gives for the same operands
Mod(d, a, b, refused, q) ==
  IF regs[b] = Int0 THEN refused /\ Keep
  ELSE /\ ~refused
       /\ IsQuotient(regs[a], regs[b], q)
       /\ Put(d, ISub(regs[a], IMul(q, regs[b])))
Sqrt(d, a, refused, s) ==
  IF regs[a].n THEN refused /\ Keep
  ELSE ~refused /\ IsFloorSqrt(regs[a], s) /\ Put(d, s)

\* the six comparisons as a record of booleans
CmpOk(a, b, r) == LET c == ICmp(regs[a], regs[b]) IN
  /\ r.lt = (c < 0) /\ r.le = (c <= 0) /\ r.gt = (c > 0) /\ r.ge = (c >= 0) /\ r.eq = (c = 0) /\ r.ne = (c # 0)

TypeOK == \A k \in 1..Regs : IsInt(regs[k])
=============================================================================
