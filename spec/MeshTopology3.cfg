SPECIFICATION Spec
CONSTANTS NV = 4 MaxF = 3 Tail_ = TRUE
INVARIANTS EveryRun EveryEdge OnceEach Symmetric
CHECK_DEADLOCK FALSE
