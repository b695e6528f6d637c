SPECIFICATION Spec
CONSTANTS
    Careless = "no"
INVARIANT Right
CHECK_DEADLOCK FALSE
