SPECIFICATION TSpec
CONSTANT WU = 256
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
