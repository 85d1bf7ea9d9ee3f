SPECIFICATION Spec
CONSTANT MaxP = 4
CONSTANT PartLen = 1
CONSTANT V = 2
CONSTANT Barrier = TRUE
CONSTANT Clamp = FALSE
INVARIANT Disjoint InRange Result
