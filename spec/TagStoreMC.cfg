SPECIFICATION Spec
CONSTANTS
    MaxOps = 2
    Careless = "no"
    Gen = FALSE
INVARIANTS Right Quiet Shape Cache
CHECK_DEADLOCK FALSE
