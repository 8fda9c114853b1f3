SPECIFICATION Spec
CONSTANTS NOPS=3 NOBJ=2 NFEAT=1 WHOLE=TRUE
INVARIANTS Ordered NoDeadlock Clean
CHECK_DEADLOCK FALSE
