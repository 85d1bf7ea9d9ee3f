SPECIFICATION Spec
CONSTANT Objs = {1, 2, 3}
CONSTANT MaxV = 12
CONSTANT MaxF = 8
CONSTANT Depth = 45
CONSTANT Discards <- AllDiscards
CONSTANT SelfGuard = TRUE
INVARIANT GenDone
CHECK_DEADLOCK FALSE
