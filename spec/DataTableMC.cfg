SPECIFICATION Spec
CONSTANTS
    Tags = {"a", "b"}
    MaxOps = 7
    Counting = "count"
    Gen = FALSE
INVARIANTS Agree
PROPERTIES Returns
CHECK_DEADLOCK FALSE
