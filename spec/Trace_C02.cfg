SPECIFICATION Spec
INVARIANTS C02
CHECK_DEADLOCK FALSE
