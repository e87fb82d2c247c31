SPECIFICATION Spec
CONSTANT FRESH = TRUE
INVARIANTS Kept Compose Neutral Associates Written Printed
PROPERTY Forever
CHECK_DEADLOCK FALSE
