CONSTANTS MaxLen = 3
Emit = FALSE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Ends
