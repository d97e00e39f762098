SPECIFICATION Spec
INVARIANTS Equal Known Done Block
CHECK_DEADLOCK FALSE
