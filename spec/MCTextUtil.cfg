CONSTANTS MaxT = 9
MaxP = 4
MaxE = 6
Emit = FALSE
SPECIFICATION Spec
INVARIANTS Laws EscLaws
CHECK_DEADLOCK FALSE
