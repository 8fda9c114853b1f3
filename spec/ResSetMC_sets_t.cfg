SPECIFICATION Spec
CONSTANTS NR=3 Scope="sets"
INVARIANT Inv
CHECK_DEADLOCK FALSE
