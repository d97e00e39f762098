SPECIFICATION Spec
CONSTANTS MaxSamples = 2
 MaxWrites = 2
 MaxLoads = 2
 NVs = {0, 2}
INVARIANTS InvPaired InvTogether
PROPERTY Kept
CHECK_DEADLOCK FALSE
