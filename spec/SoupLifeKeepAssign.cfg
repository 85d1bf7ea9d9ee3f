SPECIFICATION Spec
CONSTANT Objs = {1, 2}
CONSTANT MaxV = 4
CONSTANT MaxF = 2
CONSTANT Depth = 1000
CONSTANT Discards <- NoAssign
CONSTANT SelfGuard = TRUE
VIEW View
INVARIANT Fresh_
CHECK_DEADLOCK FALSE
