SPECIFICATION Spec
PROPERTIES Ends
CHECK_DEADLOCK FALSE
