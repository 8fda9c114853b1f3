CONSTANTS
Keys = {1,2}
MaxOps = 3
MaxParts = 2
MaxCrash = 1
Atomic = TRUE
WaitAll = TRUE
SPECIFICATION Spec
INVARIANTS Prefix Acknowledged
CHECK_DEADLOCK FALSE
