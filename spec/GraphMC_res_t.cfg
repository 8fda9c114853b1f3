CONSTANTS
  NObj = 3
  NRes = 2
  Edited = 3
  Set = "res"
  Meta <- MCMeta
SPECIFICATION Spec
INVARIANT Inv
PROPERTY Frame
CHECK_DEADLOCK FALSE
