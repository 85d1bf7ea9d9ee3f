SPECIFICATION Spec
CONSTANTS MaxSlots = 14 SkipGap = TRUE Generate = TRUE
INVARIANTS Gen
CHECK_DEADLOCK FALSE
