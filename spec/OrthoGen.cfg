SPECIFICATION Spec
CONSTANTS
 D = 5
 Ops = {"x"}
CHECK_DEADLOCK FALSE
