CONSTANTS
  NObj = 3
  NRes = 0
  Edited = 1
  Set = "lists"
  Meta <- MCMeta
SPECIFICATION Spec
INVARIANT Inv
PROPERTY Frame
CHECK_DEADLOCK FALSE
