SPECIFICATION Spec
CONSTANT NTerm = 3
INVARIANTS Superposition OrderFree Unmarked AllIsEverywhere
CHECK_DEADLOCK FALSE
