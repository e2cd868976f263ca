CONSTANT Top = 64
SPECIFICATION Spec
INVARIANT Coherent
CHECK_DEADLOCK FALSE
