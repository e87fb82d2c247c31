SPECIFICATION Spec
CONSTANT SHARED = FALSE
INVARIANTS Alone Repeated Printed
PROPERTY Apart
CHECK_DEADLOCK FALSE
