CONSTANTS Meta <- MMeta Order <- MOrder N = 2
SPECIFICATION Spec
INVARIANTS Isomorphism Symmetric Reflexive Transitive CopyEqual CopySound
PROPERTY Independent
CHECK_DEADLOCK FALSE
