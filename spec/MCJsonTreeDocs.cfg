CONSTANT Only = {"parse","copydoc","movedoc","clear","set","remove"}
CONSTANTS Docs = 2
Vars = 0
MaxNodes = 4
MaxLen = 4
Emit = TRUE
Full = FALSE
SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT EmitTest
CHECK_DEADLOCK FALSE
