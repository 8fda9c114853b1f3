SPECIFICATION Spec
CONSTANTS Max=3 In0=FALSE
INVARIANT Inv
CHECK_DEADLOCK FALSE
