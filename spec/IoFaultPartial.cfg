CONSTANTS MaxN = 4 MaxBuf = 3 FlushBeforeResult = TRUE CheckAtEnd = TRUE Commit = FALSE
SPECIFICATION Spec
INVARIANTS WriteHonest ReadHonest Intact Agree
CHECK_DEADLOCK FALSE
