SPECIFICATION Spec
CONSTANTS
    MaxItems = 4
    Nums = {1, 14}
    Lens = {2, 3}
    Padded = TRUE
    Gen = FALSE
INVARIANTS Same Clear WholeWords Routed
CHECK_DEADLOCK FALSE
