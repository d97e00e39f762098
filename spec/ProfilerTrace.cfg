SPECIFICATION TSpec
CONSTANTS
 Ranks = {0, 1, 2, 3, 4}
 Names = {"alpha", "beta", "solve", "a name", "x"}
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
