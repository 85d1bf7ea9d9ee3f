SPECIFICATION Spec
CONSTANT MaxP = 4
CONSTANT PartLen = 1
CONSTANT V = 2
CONSTANT Barrier = TRUE
CONSTANT Clamp = TRUE
INVARIANT Disjoint InRange Result
PROPERTY Finishes
