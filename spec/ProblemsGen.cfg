SPECIFICATION Spec
CONSTANT L = 24
CHECK_DEADLOCK FALSE
