SPECIFICATION Spec
CONSTANT L = 4
CHECK_DEADLOCK FALSE
