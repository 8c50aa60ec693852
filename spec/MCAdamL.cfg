SPECIFICATION Spec
CONSTANTS STEPS = 3
INVARIANTS Bounded FirstIsWhole Closer
CHECK_DEADLOCK FALSE
