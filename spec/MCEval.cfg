SPECIFICATION Spec
INVARIANTS Printed Remainder Total Law
PROPERTY Shrinks
CHECK_DEADLOCK FALSE
