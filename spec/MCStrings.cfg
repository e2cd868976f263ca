CONSTANTS
  Regs = 2
  MaxLen = 4
  Emit = FALSE
SPECIFICATION Spec
VIEW View
INVARIANT Search
PROPERTY StepLaws
CHECK_DEADLOCK FALSE
