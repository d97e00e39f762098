SPECIFICATION Spec
CONSTANT T = 0
INVARIANTS Equivalent Partition
CHECK_DEADLOCK FALSE
