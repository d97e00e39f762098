SPECIFICATION Spec
CONSTRAINT Small
INVARIANTS Zeroed FixedPoint Triangular Good
CHECK_DEADLOCK FALSE
