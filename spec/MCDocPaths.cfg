SPECIFICATION Spec
CONSTANT COPY = TRUE
INVARIANTS Printed Kept Current Undone
PROPERTY Forever
CHECK_DEADLOCK FALSE
