SPECIFICATION Spec
CONSTANT MEN = 15
INVARIANTS Readable Placed
CHECK_DEADLOCK FALSE
