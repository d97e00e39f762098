SPECIFICATION Spec
CONSTANT L = 22
CHECK_DEADLOCK FALSE
