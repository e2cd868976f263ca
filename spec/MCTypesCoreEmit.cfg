SPECIFICATION Spec
CONSTANTS Roots <- CoreRoots
 Depth = 4
 Emit = TRUE
CONSTRAINT Bounded
INVARIANTS OneCategory Coherent Laws Answers Emitted
