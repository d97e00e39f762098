SPECIFICATION TSpec
CONSTANT T = 1
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
