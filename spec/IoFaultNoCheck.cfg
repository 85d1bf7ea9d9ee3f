CONSTANTS MaxN = 4 MaxBuf = 3 FlushBeforeResult = TRUE CheckAtEnd = FALSE Commit = TRUE
SPECIFICATION Spec
INVARIANTS WriteHonest ReadHonest Intact Agree
CHECK_DEADLOCK FALSE
