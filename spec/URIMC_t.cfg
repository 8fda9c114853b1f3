SPECIFICATION Spec
CONSTANT N = 4
INVARIANTS NormOK BackOK
CHECK_DEADLOCK FALSE
