SPECIFICATION Spec
CONSTANTS N = 4 DICE = {1, 2, 3, 4}
INVARIANTS AllBegin WhoBegins
CHECK_DEADLOCK FALSE
