SPECIFICATION Spec
CONSTANTS
  NOps = 8
  Family = 1
CHECK_DEADLOCK FALSE
