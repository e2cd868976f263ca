CONSTANTS MaxLen = 2
Emit = TRUE
SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT EmitTest
CHECK_DEADLOCK FALSE
