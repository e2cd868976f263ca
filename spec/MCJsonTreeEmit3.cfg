CONSTANT Only = {}
CONSTANTS Docs = 1
Vars = 1
MaxNodes = 4
MaxLen = 3
Emit = TRUE
Full = FALSE
SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT EmitTest
CHECK_DEADLOCK FALSE
