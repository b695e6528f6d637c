SPECIFICATION Spec
CONSTANTS
    MaxReq = 2
    Careless = "no"
    Gen = FALSE
INVARIANTS Allowed InOrder Whole Distinct Same2
CHECK_DEADLOCK FALSE
