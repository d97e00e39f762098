SPECIFICATION Spec
CONSTANTS NTake = 7
 NTrain = 3
CHECK_DEADLOCK FALSE
