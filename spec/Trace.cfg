INIT TraceInit
NEXT TraceNext
CONSTRAINT Track
POSTCONDITION Report
CHECK_DEADLOCK FALSE
