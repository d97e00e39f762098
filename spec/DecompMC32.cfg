SPECIFICATION Spec
CONSTANTS NX = 3
 NY = 2
INVARIANTS Right Partition
PROPERTY Terminates
CHECK_DEADLOCK FALSE
