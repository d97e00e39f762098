SPECIFICATION Spec
CONSTANTS
 Ranks = {0, 1}
 Names = {"a", "b"}
INVARIANTS Paired Ordered Summed
CHECK_DEADLOCK FALSE
