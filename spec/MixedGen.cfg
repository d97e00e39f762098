SPECIFICATION Spec
CONSTANT L = 7
CHECK_DEADLOCK FALSE
