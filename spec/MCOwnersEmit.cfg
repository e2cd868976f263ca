CONSTANTS NThreads = 2
Inits <- MCInits2
MaxOps = 1
OpSet <- MCAllOps
Keeps <- MCKeeps
Emit = TRUE
SPECIFICATION SpecInit
CHECK_DEADLOCK FALSE
INVARIANT EmitTest
