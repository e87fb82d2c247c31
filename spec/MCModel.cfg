SPECIFICATION Spec
CONSTANT LOSSY = FALSE
INVARIANTS Faithful Reached Printed
PROPERTY Same
CHECK_DEADLOCK FALSE
