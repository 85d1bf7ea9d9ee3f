SPECIFICATION Spec
CONSTANTS Threads = {1, 2, 3, 4} HW = 1 TValues = {0, 1, 2, 3, 4, 5, 8, 63, 64, 65, 1000000, 2000000000, 2000000001, 2000000002, 2000000003, 2000000004} MaxDepth = 9 MaxSteps = 60 Shared = FALSE NoUnwind = FALSE Outer = FALSE Generate = TRUE
INVARIANTS Emit
CHECK_DEADLOCK FALSE
