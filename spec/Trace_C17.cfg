SPECIFICATION Spec
INVARIANTS Script17 Real17
CHECK_DEADLOCK FALSE
