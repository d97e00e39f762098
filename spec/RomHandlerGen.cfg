SPECIFICATION Spec
CONSTANT NOps = 14
CHECK_DEADLOCK FALSE
