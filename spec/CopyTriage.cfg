CONSTANTS Meta <- TMeta Order <- TOrder
SPECIFICATION Spec
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
