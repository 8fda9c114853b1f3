CONSTANTS Meta <- MMeta Order <- MOrder N = 3
SPECIFICATION Spec
INVARIANTS Isomorphism Symmetric Reflexive Transitive CopyEqual CopySound
PROPERTY Independent
CHECK_DEADLOCK FALSE
