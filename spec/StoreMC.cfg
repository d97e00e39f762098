SPECIFICATION Spec
CONSTANTS F = {"f1", "f2"}
 G = {"/"}
 N = {"x", "y"}
 V = {0, 1}
INVARIANT Faithful
CHECK_DEADLOCK FALSE
