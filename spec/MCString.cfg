SPECIFICATION Spec
INVARIANTS Printed Agrees Stuck Open Requoted
CHECK_DEADLOCK FALSE
