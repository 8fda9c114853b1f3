SPECIFICATION Spec
CONSTANTS NR=2 Scope="registries"
INVARIANT Inv
CHECK_DEADLOCK FALSE
