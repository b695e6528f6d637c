SPECIFICATION Spec
CONSTANTS NFields = 4
INVARIANTS Incremental InStep Hidden
CHECK_DEADLOCK FALSE
