SPECIFICATION Spec
CONSTANTS
 Ranks = {0}
 Names = {"alpha", "beta", "solve", "a name", "x"}
 L = 12
CHECK_DEADLOCK FALSE
