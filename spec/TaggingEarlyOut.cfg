SPECIFICATION Spec
CONSTANTS Workers = {w1, w2}
 EarlyOut = TRUE
 Atomic = TRUE
INVARIANTS Truthful WarningsExact
PROPERTY Finishes
CHECK_DEADLOCK FALSE
