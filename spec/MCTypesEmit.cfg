SPECIFICATION Spec
CONSTANTS Roots <- AllRoots
 Depth = 2
 Emit = TRUE
CONSTRAINT Bounded
INVARIANTS OneCategory Coherent Laws Answers Emitted
