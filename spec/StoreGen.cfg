SPECIFICATION GSpec
CONSTANT Len0 = 40
CHECK_DEADLOCK FALSE
