CONSTANTS
Keys = {1,2,3}
MaxOps = 5
MaxParts = 3
MaxCrash = 2
Atomic = TRUE
WaitAll = TRUE
SPECIFICATION Spec
INVARIANTS Prefix Acknowledged
CHECK_DEADLOCK FALSE
