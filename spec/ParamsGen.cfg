SPECIFICATION Spec
CONSTANT L = 40
CHECK_DEADLOCK FALSE
