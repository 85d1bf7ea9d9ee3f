SPECIFICATION Spec
CONSTANT Modes <- ValueModes
CONSTANT Depth = 12
CONSTANT NRegs = 5
INVARIANT Emit
CHECK_DEADLOCK FALSE
