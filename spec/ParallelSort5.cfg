SPECIFICATION Spec
CONSTANT MaxP = 5
CONSTANT PartLen = 1
CONSTANT V = 1
CONSTANT Barrier = TRUE
CONSTANT Clamp = TRUE
INVARIANT Disjoint InRange Result
