SPECIFICATION Spec
CONSTANTS MaxN = 7 MaxB = 8
INVARIANTS EachOnce Full
PROPERTY Ends
