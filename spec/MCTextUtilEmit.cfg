CONSTANTS MaxT = 6
MaxP = 3
MaxE = 4
Emit = TRUE
SPECIFICATION Spec
ACTION_CONSTRAINT EmitTest
CHECK_DEADLOCK FALSE
