SPECIFICATION Spec
CONSTANTS MaxSlots = 5 SkipGap = FALSE Generate = FALSE
INVARIANTS Sound Complete Deterministic Needed BorderLikeAround Mutual
CHECK_DEADLOCK FALSE
