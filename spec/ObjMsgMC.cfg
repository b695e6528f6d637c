SPECIFICATION Spec
CONSTANTS
    MaxCalls = 1
    Careless = "no"
    Gen = FALSE
    MaxPathWords <- Seven
INVARIANTS Right OwnBytes
CHECK_DEADLOCK FALSE
