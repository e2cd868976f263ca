CONSTANTS MaxLen = 2
Emit = TRUE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT EmitTest
