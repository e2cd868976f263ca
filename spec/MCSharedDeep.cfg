CONSTANTS Roots = 2
Objs = 3
Emit = FALSE
WPlaces = {1,2,3,4}
SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
INVARIANT Owned
PROPERTY StepLaw
