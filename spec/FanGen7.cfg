SPECIFICATION Spec
CONSTANTS MaxSlots = 7 SkipGap = TRUE Generate = TRUE
INVARIANTS Gen
CHECK_DEADLOCK FALSE
