SPECIFICATION Spec
CONSTANT MaxN = 3
CONSTANT MaxT = 3
CONSTANT AtomicNext = FALSE
CONSTANT LockPost = TRUE
INVARIANT Allowed
