CONSTANTS MaxLen = 3
Emit = FALSE
SPECIFICATION Spec
VIEW View
INVARIANT Concat
PROPERTY ConcatStep
CHECK_DEADLOCK FALSE
