CONSTANTS Slots = 3
Tags = {1, 2}
Emit = FALSE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
VIEW View
INVARIANT OneEach
