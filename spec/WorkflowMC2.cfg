CONSTANTS Coef = 3
MaxVer = 4
SPECIFICATION Spec
INVARIANT Sound
CHECK_DEADLOCK FALSE
