SPECIFICATION Spec
CONSTANT Cells = {1, 2, 3}
CONSTANT Links <- Ring3
INVARIANTS AllRefine ValidBoundary Exchange
CHECK_DEADLOCK FALSE
