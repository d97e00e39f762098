CONSTANT L = 4
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
