SPECIFICATION Spec
CONSTANT S = 4000
INVARIANTS Mutual Away Positive Behind
CHECK_DEADLOCK FALSE
