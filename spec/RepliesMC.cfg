SPECIFICATION Spec
CONSTANTS
    MaxReq = 3
    Careless = "no"
    Gen = FALSE
INVARIANTS Allowed Untouched
CHECK_DEADLOCK FALSE
