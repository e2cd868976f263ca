CONSTANTS Texts <- MCTexts
Inputs <- MCInputs
MaxSteps = 3
Emit = TRUE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT EmitTest
