SPECIFICATION Spec
CONSTANT N = 3
INVARIANTS NormOK BackOK
CHECK_DEADLOCK FALSE
