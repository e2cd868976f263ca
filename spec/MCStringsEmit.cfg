CONSTANTS
  Regs = 2
  MaxLen = 2
  Emit = TRUE
SPECIFICATION Spec
VIEW View
INVARIANT Search
PROPERTY StepLaws
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT EmitTest
