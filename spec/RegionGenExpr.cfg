SPECIFICATION Spec
CONSTANT Modes <- ExprModes
CONSTANT Depth = 12
CONSTANT NRegs = 5
INVARIANT Emit
CHECK_DEADLOCK FALSE
