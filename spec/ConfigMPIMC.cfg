SPECIFICATION Spec
CONSTANT Ranks = {0, 1, 2}
INVARIANTS Loaded Agree
PROPERTY EventuallyAll
CHECK_DEADLOCK FALSE
