CONSTANTS NThreads = 2
Inits <- MCInits
MaxOps = 2
OpSet <- MCOps2
DropAcquire = TRUE
DropRelease = TRUE
WeakAcquire = TRUE
WeakRelease = TRUE
LockOnce = FALSE
SPECIFICATION Spec
INVARIANTS Sound Counted Freed
