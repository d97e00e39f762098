SPECIFICATION Spec
CONSTANT L = 5
CHECK_DEADLOCK FALSE
