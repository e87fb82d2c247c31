SPECIFICATION Spec
INVARIANTS Printed Remainder RoundTrip Counts Within Once Document Law
PROPERTIES Shrinks
CHECK_DEADLOCK FALSE
