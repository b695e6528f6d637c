SPECIFICATION Spec
CONSTANTS
    Cs = {"c1", "c2"}
    Ps = {1, 2}
    Ss = {1, 2}
    Steps = 5
    Careless = ""
    Gen = FALSE
INVARIANT Allowed
CHECK_DEADLOCK FALSE
