SPECIFICATION Spec
CONSTANTS Threads = 3
MaxOps = 2
Scratch = FALSE
Cache = FALSE
Count = FALSE
CHECK_DEADLOCK FALSE
INVARIANTS NoRace Undisturbed Untouched
