SPECIFICATION Spec
CONSTANTS
 WU = 1
 Big = TRUE
INVARIANT FastIsSlow
PROPERTY Local
PROPERTY Restores
PROPERTY PreReady
PROPERTY Stale
CHECK_DEADLOCK FALSE
