SPECIFICATION Spec
CONSTANTS NX = 2 NY = 1 L = 2
INVARIANTS WellFormed Right Matching
PROPERTY Terminates
CHECK_DEADLOCK FALSE
