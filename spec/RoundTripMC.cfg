SPECIFICATION Spec
CONSTANTS
    Threads = {1, 2}
    MaxOps = 4
    Careless = "no"
    Gen = FALSE
INVARIANTS Allowed Agree
PROPERTIES Returns
CHECK_DEADLOCK FALSE
