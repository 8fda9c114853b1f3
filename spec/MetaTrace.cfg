SPECIFICATION Spec
INVARIANTS NotBad SpecSound
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
