SPECIFICATION Spec
CONSTANTS HalfGames = 1 Limit = 5
INVARIANTS Tallied Fair InTime Deciders
PROPERTY Terminates
