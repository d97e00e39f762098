SPECIFICATION Spec
CONSTANT Level = 2
CHECK_DEADLOCK FALSE
