SPECIFICATION Spec
CONSTANTS MaxSlots = 7 SkipGap = TRUE Generate = FALSE
INVARIANTS Sound Complete PairsDecided Deterministic Needed BorderLikeAround Mutual
CHECK_DEADLOCK FALSE
