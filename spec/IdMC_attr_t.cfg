CONSTANTS Kind = "attr" N = 3 K = 6
SPECIFICATION Spec
INVARIANTS Bij Lookup
PROPERTIES ComesBack NeverReused
CHECK_DEADLOCK FALSE
