SPECIFICATION Spec
CONSTANTS
    Len1 = 3
    MaxFail = 2
    Gen = FALSE
INVARIANTS Inv
PROPERTIES Terminates OnceOnly
CHECK_DEADLOCK FALSE
