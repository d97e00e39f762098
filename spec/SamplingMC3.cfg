SPECIFICATION Spec
CONSTANTS MaxSamples = 3
 MaxWrites = 3
 MaxLoads = 2
 NVs = {0, 2}
INVARIANTS InvPaired InvTogether
PROPERTY Kept
CHECK_DEADLOCK FALSE
