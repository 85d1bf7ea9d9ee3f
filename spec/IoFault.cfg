CONSTANTS MaxN = 12 MaxBuf = 6 FlushBeforeResult = TRUE CheckAtEnd = TRUE Commit = TRUE
SPECIFICATION Spec
INVARIANTS WriteHonest ReadHonest Intact Agree
CHECK_DEADLOCK FALSE
