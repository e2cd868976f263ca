CONSTANTS NThreads = 3
Inits <- MCInits3
MaxOps = 1
OpSet <- MCOps3
Keeps <- MCKeeps
Emit = TRUE
SPECIFICATION SpecInit
CHECK_DEADLOCK FALSE
INVARIANT EmitTest
