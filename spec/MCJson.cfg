CONSTANTS MaxTok = 6
MaxNum = 5
MaxStr = 5
Depth = 2
Emit = FALSE
SPECIFICATION Spec
INVARIANTS TokLaw NumLaw StrLaw TreeLaw
CHECK_DEADLOCK FALSE
