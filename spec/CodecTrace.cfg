SPECIFICATION Spec
INVARIANT NotBad
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
