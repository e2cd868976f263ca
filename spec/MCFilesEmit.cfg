CONSTANTS Paths = 1
Objects = 2
Texts <- MCTexts
Delims = {10}
MaxLen = 2
Emit = TRUE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
VIEW View
ACTION_CONSTRAINT EmitTest
