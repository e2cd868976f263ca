CONSTANTS Roots = 2
Objs = 3
Emit = FALSE
SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
INVARIANT OneOwner
PROPERTY StepLaw
