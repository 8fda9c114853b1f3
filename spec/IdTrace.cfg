SPECIFICATION Spec
INVARIANTS NotBad Sane
CHECK_DEADLOCK FALSE
