SPECIFICATION Spec
CONSTANTS N = 4 DICE = {1, 2}
INVARIANTS AllBegin WhoBegins
CHECK_DEADLOCK FALSE
