SPECIFICATION Spec
CONSTANT NRuns = 4
CHECK_DEADLOCK FALSE
