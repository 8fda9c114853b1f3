SPECIFICATION Spec
CONSTANTS SCALE=8 NX=2 NLEN=4 NKEY=6
INVARIANT Refines
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
