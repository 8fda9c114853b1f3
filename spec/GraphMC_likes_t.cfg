CONSTANTS
  NObj = 3
  NRes = 0
  Edited = 2
  Set = "likes"
  Meta <- MCMeta
SPECIFICATION Spec
INVARIANT Inv
PROPERTY Frame
CHECK_DEADLOCK FALSE
