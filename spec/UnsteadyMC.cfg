SPECIFICATION Spec
CONSTANTS
  NT = 4
  MaxRuns = 3
INVARIANTS Faithful Ends Count
PROPERTY NeverLost
CHECK_DEADLOCK FALSE
