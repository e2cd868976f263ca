CONSTANTS NThreads = 2
Inits <- MCInits
MaxOps = 1
OpSet <- MCOps
DropAcquire = TRUE
DropRelease = TRUE
WeakAcquire = TRUE
WeakRelease = TRUE
LockOnce = FALSE
SPECIFICATION Spec
INVARIANTS Sound Counted Freed
