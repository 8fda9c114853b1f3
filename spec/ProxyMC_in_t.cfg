SPECIFICATION Spec
CONSTANTS Max=3 In0=TRUE
INVARIANT Inv
CHECK_DEADLOCK FALSE
