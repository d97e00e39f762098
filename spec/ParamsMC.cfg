SPECIFICATION Spec
CONSTANT U = 1000
INVARIANTS InRange Ends AllAtMaximum OnlyKeys Written Distinct
CHECK_DEADLOCK FALSE
