CONSTANTS
  LimbDigits = 1
  Regs = 3
  Rich = FALSE
  Emit = TRUE
SPECIFICATION Spec
INVARIANTS TypeOK Agrees Order Text TextLaws
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT EmitTest
