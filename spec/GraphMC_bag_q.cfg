CONSTANTS
  NObj = 1
  NRes = 0
  Edited = 1
  Set = "bag"
  Meta <- MCMeta
SPECIFICATION Spec
INVARIANT Inv
PROPERTY Frame
CHECK_DEADLOCK FALSE
