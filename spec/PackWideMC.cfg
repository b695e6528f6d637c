SPECIFICATION Spec
CONSTANTS
    Fields = "some"
    NFields = 3
    Inner = 1
    Gen = FALSE
INVARIANTS Placed Incremental Distinct
CHECK_DEADLOCK FALSE
