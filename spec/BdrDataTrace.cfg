SPECIFICATION TSpec
CONSTANT Tol = 4
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
