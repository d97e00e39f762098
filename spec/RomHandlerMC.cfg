SPECIFICATION Spec
CONSTANTS MaxSteps = 4
 Level = 1
INVARIANTS Galerkin Leading Vector Indices
CHECK_DEADLOCK FALSE
