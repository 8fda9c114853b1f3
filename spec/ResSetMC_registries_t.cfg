SPECIFICATION Spec
CONSTANTS NR=3 Scope="registries"
INVARIANT Inv
CHECK_DEADLOCK FALSE
