SPECIFICATION Spec
CONSTANTS Threads = 2
MaxOps = 3
Scratch = FALSE
Cache = FALSE
Count = FALSE
CHECK_DEADLOCK FALSE
INVARIANTS NoRace Undisturbed Untouched
