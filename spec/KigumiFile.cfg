SPECIFICATION Spec
INVARIANTS RoundTrip Truncated
CHECK_DEADLOCK FALSE
