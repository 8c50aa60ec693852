SPECIFICATION Spec
CONSTANT MEN = 7
INVARIANTS Readable Placed
CHECK_DEADLOCK FALSE
