SPECIFICATION Spec
CONSTANTS HalfGames = 2 Limit = 3
INVARIANTS Tallied Fair InTime Deciders
PROPERTY Terminates
