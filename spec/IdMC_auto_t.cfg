CONSTANTS Kind = "auto" N = 3 K = 5
SPECIFICATION Spec
INVARIANTS Bij Lookup
PROPERTIES ComesBack NeverReused
CHECK_DEADLOCK FALSE
