SPECIFICATION Spec
CONSTANTS Workers = {w1, w2}
 EarlyOut = FALSE
 Atomic = FALSE
INVARIANTS Truthful WarningsExact
PROPERTY Finishes
CHECK_DEADLOCK FALSE
