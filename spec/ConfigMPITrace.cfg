SPECIFICATION TSpec
CONSTANT Ranks = {0, 1, 2, 3, 4, 5, 6, 7}
INVARIANTS Loaded Agree
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
