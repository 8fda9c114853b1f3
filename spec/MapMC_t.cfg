SPECIFICATION Spec
CONSTANTS NK=2 NE=4 NV=2
INVARIANT Sound
CHECK_DEADLOCK FALSE
