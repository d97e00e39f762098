SPECIFICATION Spec
CONSTANTS
 Ranks = {0,1,2}
 Names = {"alpha", "beta", "solve", "a name", "x"}
 L = 20
CHECK_DEADLOCK FALSE
