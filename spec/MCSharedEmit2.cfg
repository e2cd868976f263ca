CONSTANTS Roots = 2
Objs = 2
Emit = TRUE
WPlaces = {1}
SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT EmitTest
