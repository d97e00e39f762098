SPECIFICATION Spec
INVARIANT Faithful
CHECK_DEADLOCK FALSE
