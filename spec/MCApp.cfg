CONSTANTS Texts <- MCTexts
MaxSteps = 8
Emit = FALSE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
VIEW View
INVARIANTS Once
PROPERTIES Kept Given
