SPECIFICATION Spec
CONSTANT MaxN = 4
CONSTANT MaxT = 3
CONSTANT AtomicNext = TRUE
CONSTANT LockPost = TRUE
INVARIANT Allowed
