SPECIFICATION Spec
INVARIANTS Sums Adjoint Galerkin Contractions
PROPERTY Ends
CHECK_DEADLOCK FALSE
