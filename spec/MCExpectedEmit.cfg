CONSTANTS Slots = 2
Tags = {1, 2}
Emit = TRUE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
VIEW View
ACTION_CONSTRAINT EmitTest
