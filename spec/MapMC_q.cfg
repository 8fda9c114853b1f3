SPECIFICATION Spec
CONSTANTS NK=2 NE=3 NV=1
INVARIANT Sound
CHECK_DEADLOCK FALSE
