CONSTANTS NOps = 11
Family0 = 3
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
