SPECIFICATION Spec
CONSTANT T = 0
INVARIANT AllSampled
PROPERTY Steps
CHECK_DEADLOCK FALSE
