CONSTANTS
  MaxLen = 4
  Emit = FALSE
SPECIFICATION Spec
INVARIANTS Same Round AtSame Prefix Codes
CHECK_DEADLOCK FALSE
