SPECIFICATION Spec
CONSTANTS Max=2 In0=TRUE
INVARIANT Inv
CHECK_DEADLOCK FALSE
