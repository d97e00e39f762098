SPECIFICATION Spec
CONSTANTS
 Ranks = {0,1}
 Names = {"alpha", "beta", "solve", "a name", "x"}
 L = 16
CHECK_DEADLOCK FALSE
