SPECIFICATION Spec
CONSTANTS NX = 2 NY = 2 L = 2
INVARIANTS WellFormed Right Matching
CHECK_DEADLOCK FALSE
