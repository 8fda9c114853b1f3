SPECIFICATION Spec
INVARIANTS NotBad
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
