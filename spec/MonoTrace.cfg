SPECIFICATION TSpec
CONSTANT T = 2
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
