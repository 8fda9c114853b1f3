SPECIFICATION Spec
CONSTANTS SCALE=8 NX=2 NLEN=3 NKEY=5
INVARIANT Refines
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
