SPECIFICATION Spec
INVARIANTS Script18 Real18
CHECK_DEADLOCK FALSE
