SPECIFICATION Spec
CONSTANT FRESH = FALSE
INVARIANTS Kept
PROPERTY Forever
CHECK_DEADLOCK FALSE
