SPECIFICATION Spec
INVARIANTS Agree Unique
PROPERTY Always
CHECK_DEADLOCK FALSE
