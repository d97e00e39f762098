SPECIFICATION GSpec
CONSTANT Len0 = 14
INVARIANT CTypeOK
CHECK_DEADLOCK FALSE
