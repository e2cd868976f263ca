CONSTANTS NThreads = 2
Inits <- MCInits
MaxOps = 1
OpSet <- MCOps
Keeps <- MCKeeps
Emit = FALSE
SPECIFICATION Spec
INVARIANTS Alive Waiting OneDue Accounted Complete
PROPERTIES NoRevival
