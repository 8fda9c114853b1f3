CONSTANTS
  NObj = 4
  NRes = 0
  Edited = 4
  Set = "tree"
  Meta <- MCMeta
SPECIFICATION Spec
INVARIANT Inv
PROPERTY Frame
CHECK_DEADLOCK FALSE
