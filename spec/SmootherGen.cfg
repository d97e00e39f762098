SPECIFICATION Spec
CONSTANTS
 D = 4
 Ops = {"x"}
CHECK_DEADLOCK FALSE
