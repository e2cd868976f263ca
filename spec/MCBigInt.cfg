CONSTANTS
  LimbDigits = 1
  Regs = 3
  NegLo = 13
  Hi = 41
  Emit = FALSE
SPECIFICATION Spec
INVARIANTS TypeOK Agrees Order Text TextLaws
CHECK_DEADLOCK FALSE
