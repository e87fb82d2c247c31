SPECIFICATION Spec
CONSTANT COPY = FALSE
INVARIANTS Kept
CHECK_DEADLOCK FALSE
