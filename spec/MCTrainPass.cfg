SPECIFICATION Spec
CONSTANTS MaxN = 5 MaxB = 6
INVARIANTS EachOnce Full
PROPERTY Ends
