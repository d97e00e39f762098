SPECIFICATION Spec
CONSTANTS
  NOps = 8
  Family = 2
CHECK_DEADLOCK FALSE
