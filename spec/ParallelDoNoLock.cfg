SPECIFICATION Spec
CONSTANT MaxN = 3
CONSTANT MaxT = 3
CONSTANT AtomicNext = TRUE
CONSTANT LockPost = FALSE
INVARIANT Allowed
