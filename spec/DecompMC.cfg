SPECIFICATION Spec
CONSTANTS NX = 2
 NY = 2
INVARIANTS Right Partition
PROPERTY Terminates
CHECK_DEADLOCK FALSE
