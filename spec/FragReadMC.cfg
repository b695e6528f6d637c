SPECIFICATION Spec
CONSTANTS
    MaxTotal = 4
    MaxReplies = 5
    Sizes = {4}
    Statuses = {0, 6, 5, 255}
    Faults = {"", "silent"}
    Gen = FALSE
INVARIANTS Inv Progressing
PROPERTIES Terminates TotalConst
CHECK_DEADLOCK FALSE
