SPECIFICATION Spec
CONSTANTS MaxSlots = 6 SkipGap = TRUE Generate = TRUE
INVARIANTS Gen
CHECK_DEADLOCK FALSE
