SPECIFICATION Spec
CONSTANT MaxN = 5
CONSTANT V = 2
CONSTANT Depth = 2
CONSTANT Shift = 1
INVARIANT WrittenOnce InBounds Complete ReportsHits
CHECK_DEADLOCK FALSE
