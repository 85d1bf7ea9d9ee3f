SPECIFICATION Spec
CONSTANTS NV = 4 MaxF = 2 Tail_ = TRUE
INVARIANTS EveryRun EveryEdge OnceEach Symmetric
CHECK_DEADLOCK FALSE
