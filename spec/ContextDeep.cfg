SPECIFICATION Spec
CONSTANTS Threads = {1, 2, 3} HW = 2 TValues = {0, 2, 5} MaxDepth = 2 MaxSteps = 0 Shared = FALSE NoUnwind = FALSE Outer = FALSE Generate = FALSE
INVARIANTS Right
CHECK_DEADLOCK FALSE
