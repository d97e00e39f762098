SPECIFICATION GSpec
CONSTANT Len0 = 1
INVARIANT CTypeOK
CHECK_DEADLOCK FALSE
