CONSTANTS
  NObj = 3
  NRes = 1
  Edited = 3
  Set = "single"
  Meta <- MCMeta
SPECIFICATION Spec
INVARIANT Inv
PROPERTY Frame
CHECK_DEADLOCK FALSE
