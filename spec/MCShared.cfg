CONSTANTS Roots = 2
Objs = 3
Emit = FALSE
WPlaces = {1,3}
SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
INVARIANT Owned
PROPERTY StepLaw
