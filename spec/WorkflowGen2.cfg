CONSTANTS NOps = 11
Family0 = 2
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
