SPECIFICATION Spec
CONSTANTS
    Items = 5
    Limit = 3
    Join = "in-order"
    Fit = TRUE
    Gen = FALSE
INVARIANTS CanGoOn
PROPERTIES Returns
CHECK_DEADLOCK FALSE
