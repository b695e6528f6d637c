SPECIFICATION Spec
CONSTANTS
    Threads = {1, 2}
    MaxOps = 3
    MaxConns = 3
    Large = TRUE
    Auto = TRUE
    Ops = {"connect", "disconnect", "unit"}
    Faults = {"silent"}
    MaxFaults = 2
    Gen = FALSE
INVARIANT AllInv
VIEW View
