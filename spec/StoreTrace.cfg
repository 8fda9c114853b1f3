SPECIFICATION Spec
INVARIANT NotBad
CHECK_DEADLOCK FALSE
