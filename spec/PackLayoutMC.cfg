SPECIFICATION Spec
CONSTANTS
    Fields = "some"
    NFields = 2
    Inner = 2
    Gen = FALSE
INVARIANTS Placed Incremental Distinct
CHECK_DEADLOCK FALSE
