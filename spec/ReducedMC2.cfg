CONSTANTS NSub = 4
Samples = 4000
SPECIFICATION Spec
INVARIANTS Right Ever
CHECK_DEADLOCK FALSE
