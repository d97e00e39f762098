SPECIFICATION Spec
CONSTANT Steps = 4
INVARIANTS IsDerivative IsMatrix PortByPort Sparse
CHECK_DEADLOCK FALSE
