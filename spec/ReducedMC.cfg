CONSTANTS NSub = 3
Samples = 300
SPECIFICATION Spec
INVARIANTS Right Ever
CHECK_DEADLOCK FALSE
