CONSTANTS Roots = 1
Objs = 2
Emit = TRUE
WPlaces = {1,2}
SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT EmitTest
