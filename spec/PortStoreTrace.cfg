SPECIFICATION PSpec
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
