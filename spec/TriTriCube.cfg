INIT Init
NEXT Next
CONSTANT Pts <- Cube
CONSTANT Cases = {1, 2, 3}
INVARIANT Complete AtMostSix Symmetric Orderable
CHECK_DEADLOCK FALSE
