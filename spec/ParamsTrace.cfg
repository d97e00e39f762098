SPECIFICATION TSpec
CONSTANT U = 10000
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
