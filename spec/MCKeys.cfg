SPECIFICATION Spec
INVARIANT Printed Open Faithful Joined Addresses
CHECK_DEADLOCK FALSE
