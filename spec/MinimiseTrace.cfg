CONSTANTS SCALE = 1000000 XS = 1000
SPECIFICATION TSpec
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
