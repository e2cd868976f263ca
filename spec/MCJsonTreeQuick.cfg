CONSTANT Only = {}
CONSTANTS Docs = 1
Vars = 1
MaxNodes = 5
MaxLen = 3
Emit = FALSE
Full = TRUE
SPECIFICATION Spec
VIEW View
INVARIANT TreesOk
PROPERTY StepLaw
CHECK_DEADLOCK FALSE
