SPECIFICATION TSpec
INVARIANT CTypeOK
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
