CONSTANT Meta <- TMeta
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
