SPECIFICATION Spec
CONSTANTS
    MaxCalls = 2
    Careless = "no"
    Gen = FALSE
    MaxPathWords <- Seven
INVARIANTS Right OwnBytes
CHECK_DEADLOCK FALSE
