CONSTANTS
  MaxLen = 5
  MaxSpec = 4
  Emit = TRUE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT EmitTest
