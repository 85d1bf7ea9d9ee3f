CONSTANTS MaxN = 4 MaxBuf = 3 FlushBeforeResult = FALSE CheckAtEnd = TRUE Commit = TRUE
SPECIFICATION Spec
INVARIANTS WriteHonest ReadHonest Intact Agree
CHECK_DEADLOCK FALSE
