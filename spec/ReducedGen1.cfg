SPECIFICATION Spec
CONSTANTS
  NOps = 6
  Family = 1
CHECK_DEADLOCK FALSE
