SPECIFICATION Spec
INVARIANTS Printed Same Explicit Nested
CHECK_DEADLOCK FALSE
