INIT Init
NEXT Next
CONSTANT Pts <- Plane
CONSTANT Cases = {1, 3}
INVARIANT Complete AtMostSix Symmetric Orderable
CHECK_DEADLOCK FALSE
