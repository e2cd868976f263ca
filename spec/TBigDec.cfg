CONSTANTS
  LimbDigits = 3
  Regs = 4
SPECIFICATION Spec
INVARIANT TypeOK
CHECK_DEADLOCK TRUE
