CONSTANTS SCALE = 4 XS = 1
SPECIFICATION Spec
CONSTRAINT Bound
INVARIANTS Success Never
PROPERTY Down
CHECK_DEADLOCK FALSE
