CONSTANTS IntBits = 4
Widths = {2, 3, 4, 5, 6}
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Exact Needed
