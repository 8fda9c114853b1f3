SPECIFICATION Spec
INVARIANTS NotBad Unique
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
