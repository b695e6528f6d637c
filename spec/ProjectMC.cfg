SPECIFICATION Spec
CONSTANTS
    MaxDigits = 4
    Careless = "no"
INVARIANT Right
CHECK_DEADLOCK FALSE
