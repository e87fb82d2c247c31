SPECIFICATION Spec
INVARIANTS Printed Enough Needed
CHECK_DEADLOCK FALSE
