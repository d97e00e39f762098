SPECIFICATION Spec
CONSTANTS
 T = 0
 M = 4
 Steps = 2
INVARIANTS Conserved Uniform
CHECK_DEADLOCK FALSE
