SPECIFICATION Spec
CONSTANTS
    Want = TRUE
    MaxChanges = 4
    MaxConns = 2
    MaxPolls = 7
    Pages = 3
    Careless = "no"
    Gen = FALSE
INVARIANTS Allowed Knows Kept
CHECK_DEADLOCK FALSE
