SPECIFICATION Spec
CONSTANTS MaxSteps = 5
 Level = 2
INVARIANTS Galerkin Leading Vector Indices
CHECK_DEADLOCK FALSE
