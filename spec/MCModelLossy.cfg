SPECIFICATION Spec
CONSTANT LOSSY = TRUE
INVARIANTS Faithful
CHECK_DEADLOCK FALSE
