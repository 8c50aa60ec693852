SPECIFICATION Spec
CONSTANTS STEPS = 2
INVARIANTS Bounded FirstIsWhole Closer
CHECK_DEADLOCK FALSE
