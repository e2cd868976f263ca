CONSTANTS
  Regs = 3
SPECIFICATION Spec
CHECK_DEADLOCK TRUE
