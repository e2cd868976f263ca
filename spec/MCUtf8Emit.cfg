CONSTANTS
  MaxLen = 3
  Emit = TRUE
SPECIFICATION Spec
INVARIANTS Same Round Prefix Codes
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT EmitTest
