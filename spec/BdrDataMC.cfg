SPECIFICATION Spec
CONSTANTS V = 3  Tol = 0
INVARIANT ExactSolution
CHECK_DEADLOCK FALSE
