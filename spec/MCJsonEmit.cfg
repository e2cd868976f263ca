CONSTANTS MaxTok = 5
MaxNum = 5
MaxStr = 4
Depth = 0
Emit = TRUE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT EmitTest
