SPECIFICATION Spec
CONSTANTS NV = 4 MaxF = 2 Tail_ = FALSE
INVARIANTS EveryRun EveryEdge OnceEach Symmetric
CHECK_DEADLOCK FALSE
