SPECIFICATION Spec
CONSTANTS Roots <- AllRoots
 Depth = 3
 Emit = FALSE
CONSTRAINT Bounded
INVARIANTS OneCategory Coherent Laws Answers Emitted
