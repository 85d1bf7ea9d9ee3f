SPECIFICATION Spec
CONSTANTS Targets = 3
 MaxStops = 3
 MaxQueries = 3
INVARIANT Correct
CHECK_DEADLOCK FALSE
