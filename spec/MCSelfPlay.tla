------------------------------ MODULE MCSelfPlay ------------------------------
EXTENDS Integers, Sequences
CONSTANTS Games, MaxRounds
VARIABLES gr, limit, at, rounds, mem, out, live
V(p, w, to, code, pass) == [p |-> p, w |-> w, to |-> to, code |-> code, pass |-> pass]
Graphs == <<
  << V(-1, 2, <<2, 3>>, <<4, 7>>, 2), V(1, 2, <<>>, <<>>, 4), V(1, 2, <<5, 4>>, <<1, 2>>, 4), V(-1, 2, <<6>>, <<3>>, 6), V(-1, -1, <<>>, <<>>, 5), V(1, 0, <<>>, <<>>, 6) >>,
  \* blocked at the start, an endless loop, a double turn
  << V(1, 2, <<>>, <<>>, 2), V(-1, 2, <<2, 3>>, <<0, 5>>, 2), V(-1, 2, <<4, 2>>, <<2, 9>>, 2), V(1, 1, <<>>, <<>>, 4) >> >>
S == INSTANCE SelfPlay
Spec == S!Spec
Complete == S!Complete
InTime == S!InTime
Terminates == S!Terminates
=============================================================================
