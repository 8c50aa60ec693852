------------------------------ MODULE MCMatch ------------------------------
EXTENDS Integers, Sequences
CONSTANTS HalfGames, Limit
VARIABLES gr, at, turns, live, tally, by
V(p, w, to, code, pass) == [p |-> p, w |-> w, to |-> to, code |-> code, pass |-> pass]
Graphs == <<
  << V(-1, 2, <<2, 3>>, <<4, 7>>, 2), V(1, 2, <<5, 4>>, <<1, 6>>, 4), V(1, 2, <<>>, <<>>, 4), V(-1, 2, <<6, 1>>, <<3, 5>>, 6), V(-1, -1, <<>>, <<>>, 5), V(1, 1, <<>>, <<>>, 6) >>,
  << V(1, 2, <<2, 3>>, <<4, 7>>, 4), V(1, 2, <<1, 5>>, <<1, 6>>, 4), V(-1, 2, <<>>, <<>>, 4), V(-1, 2, <<5, 1>>, <<3, 5>>, 1), V(-1, 0, <<>>, <<>>, 5) >> >>
M == INSTANCE Match
Spec == M!Spec
Tallied == M!Tallied
Fair == M!Fair
InTime == M!InTime
Deciders == M!Deciders
Terminates == M!Terminates
=============================================================================
