SPECIFICATION Spec
CONSTANTS
    Main = {1, 2}
    Prog = {1}
    ProgEntry = 2
    Froms = {0, 3}
    Gen = FALSE
    Lists2 = FALSE
    Calls = 2
INVARIANTS Inv NoneLeft OneEach
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
