SPECIFICATION Spec
CONSTANTS NR=2 Scope="sets"
INVARIANT Inv
CHECK_DEADLOCK FALSE
