SPECIFICATION Spec
CONSTANTS Threads = {1, 2} HW = 2 TValues = {0, 1, 2, 5, 2000000000} MaxDepth = 3 MaxSteps = 0 Shared = TRUE NoUnwind = FALSE Outer = FALSE Generate = FALSE
INVARIANTS Right
CHECK_DEADLOCK FALSE
