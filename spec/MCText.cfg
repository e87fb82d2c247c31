SPECIFICATION Spec
INVARIANTS Printed Munch InGrammar Blanks Closed
CHECK_DEADLOCK FALSE
