CONSTANTS
  NObj = 3
  NRes = 0
  Edited = 3
  Set = "group"
  Meta <- MCMeta
SPECIFICATION Spec
INVARIANT Inv
PROPERTY Frame
CHECK_DEADLOCK FALSE
