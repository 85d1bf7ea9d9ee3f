SPECIFICATION Spec
CONSTANT FacetSet = {"kind", "mem", "bnd", "id", "valid", "warn", "same", "side"}
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
