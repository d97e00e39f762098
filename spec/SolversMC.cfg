SPECIFICATION Spec
CONSTANT Level = 1
CHECK_DEADLOCK FALSE
