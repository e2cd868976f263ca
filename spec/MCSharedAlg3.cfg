CONSTANTS NThreads = 3
Inits <- MCInits3
MaxOps = 1
OpSet <- MCOps3
DropAcquire = TRUE
DropRelease = TRUE
WeakAcquire = TRUE
WeakRelease = TRUE
LockOnce = FALSE
SPECIFICATION Spec
INVARIANTS Sound Counted Freed
