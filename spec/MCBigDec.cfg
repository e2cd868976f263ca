CONSTANTS
  LimbDigits = 1
  Regs = 3
  Rich = TRUE
  Emit = FALSE
SPECIFICATION Spec
INVARIANTS TypeOK Agrees Order Text TextLaws
CHECK_DEADLOCK FALSE

