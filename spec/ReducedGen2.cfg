SPECIFICATION Spec
CONSTANTS
  NOps = 6
  Family = 2
CHECK_DEADLOCK FALSE
