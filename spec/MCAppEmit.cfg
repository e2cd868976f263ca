CONSTANTS Texts <- MCTexts
MaxSteps = 4
Emit = TRUE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT EmitTest
