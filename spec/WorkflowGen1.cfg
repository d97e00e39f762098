CONSTANTS NOps = 11
Family0 = 1
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
