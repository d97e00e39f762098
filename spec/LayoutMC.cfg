SPECIFICATION Spec
INVARIANTS Right Tight Count
CHECK_DEADLOCK FALSE
