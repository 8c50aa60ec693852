SPECIFICATION Spec
CONSTANTS
  Games = {1, 2, 3}
  MaxRounds = 4
INVARIANTS Complete InTime
PROPERTY Terminates
