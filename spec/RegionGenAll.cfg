SPECIFICATION Spec
CONSTANT Modes <- AllModes
CONSTANT Depth = 14
CONSTANT NRegs = 5
INVARIANT Emit
CHECK_DEADLOCK FALSE
