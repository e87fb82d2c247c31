SPECIFICATION Spec
CONSTANT SHARED = TRUE
INVARIANTS Alone
CHECK_DEADLOCK FALSE
