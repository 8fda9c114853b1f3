CONSTANTS
  NObj = 5
  NRes = 0
  Edited = 5
  Set = "chain"
  Meta <- MCMeta
SPECIFICATION Spec
INVARIANT Inv
PROPERTY Frame
CHECK_DEADLOCK FALSE
