SPECIFICATION Spec
CONSTANT MaxN = 9
CONSTANT V = 1
CONSTANT Depth = 2
CONSTANT Shift = 0
INVARIANT WrittenOnce InBounds Complete ReportsHits
CHECK_DEADLOCK FALSE
