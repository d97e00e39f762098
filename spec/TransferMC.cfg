SPECIFICATION Spec
INVARIANTS Faithful Untouched
PROPERTY Ends
CHECK_DEADLOCK FALSE
