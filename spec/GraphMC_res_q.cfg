CONSTANTS
  NObj = 2
  NRes = 2
  Edited = 2
  Set = "res"
  Meta <- MCMeta
SPECIFICATION Spec
INVARIANT Inv
PROPERTY Frame
CHECK_DEADLOCK FALSE
