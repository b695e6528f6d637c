SPECIFICATION Spec
CONSTANTS
    Main = {1, 2, 4}
    Prog = {1, 3}
    ProgEntry = 2
    Froms = {0, 3}
    Gen = FALSE
    Lists2 = FALSE
    Calls = 1
INVARIANTS Inv NoneLeft OneEach
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
