SPECIFICATION TSpec
CONSTANT S = 4000
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
