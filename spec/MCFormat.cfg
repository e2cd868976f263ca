CONSTANTS
  MaxLen = 6
  MaxSpec = 5
  Emit = FALSE
SPECIFICATION Spec
INVARIANTS Templates Fields
CHECK_DEADLOCK FALSE
