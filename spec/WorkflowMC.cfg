CONSTANTS Coef = 2
MaxVer = 2
SPECIFICATION Spec
INVARIANT Sound
CHECK_DEADLOCK FALSE
