SPECIFICATION Spec
INVARIANTS Sides Twin Valid
PROPERTY OnlyThose
CHECK_DEADLOCK FALSE
