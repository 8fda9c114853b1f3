SPECIFICATION Spec
CONSTANTS Max=2 In0=FALSE
INVARIANT Inv
CHECK_DEADLOCK FALSE
