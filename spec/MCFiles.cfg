CONSTANTS Paths = 1
Objects = 2
Texts <- MCTexts
Delims = {10}
MaxLen = 3
Emit = FALSE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
VIEW View
INVARIANTS Written Exists
PROPERTY StepLaw
