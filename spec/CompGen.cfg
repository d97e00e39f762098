SPECIFICATION Spec
CONSTANT Dims = {2, 3}
CHECK_DEADLOCK FALSE
