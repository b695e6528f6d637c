SPECIFICATION Spec
CONSTANTS
    Items = 5
    Limit = 3
    Check = "all"
    Gen = FALSE
INVARIANTS CanGoOn
PROPERTIES Returns
CHECK_DEADLOCK FALSE
