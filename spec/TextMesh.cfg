SPECIFICATION Spec
INVARIANTS Conveys NoCut NoSurplus Progress
CHECK_DEADLOCK FALSE
