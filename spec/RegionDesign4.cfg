SPECIFICATION Spec
CONSTANT Cells = {1, 2, 3, 4}
CONSTANT Links <- Graph4
INVARIANTS AllRefine ValidBoundary Exchange
CHECK_DEADLOCK FALSE
