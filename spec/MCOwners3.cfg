CONSTANTS NThreads = 3
Inits <- MCInits3
MaxOps = 1
OpSet <- MCOps3
Keeps <- MCNoKeeps
Emit = FALSE
SPECIFICATION Spec
INVARIANTS Alive Waiting OneDue Accounted Complete
PROPERTIES NoRevival
