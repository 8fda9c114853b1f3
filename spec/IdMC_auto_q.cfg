CONSTANTS Kind = "auto" N = 3 K = 4
SPECIFICATION Spec
INVARIANTS Bij Lookup
PROPERTIES ComesBack NeverReused
CHECK_DEADLOCK FALSE
