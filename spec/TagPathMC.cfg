SPECIFICATION Spec
CONSTANTS
    Names = {"a", "b"}
    Insts = {"1", "2"}
    Steps = 6
    Forget = TRUE
    Key = "path"
    Gen = FALSE
INVARIANTS Right
CHECK_DEADLOCK FALSE
