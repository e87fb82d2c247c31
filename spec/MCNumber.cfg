SPECIFICATION Spec
INVARIANTS Printed Agrees OneToken
CHECK_DEADLOCK FALSE
