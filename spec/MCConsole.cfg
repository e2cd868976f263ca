CONSTANTS Texts <- MCTexts
Inputs <- MCInputs
MaxSteps = 4
Emit = FALSE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Streams Lines
