--------------------------- MODULE TraceBeginnings ---------------------------
(* Do the recorded games begin as the specification says?                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES c, l
B == INSTANCE Beginnings WITH N <- 2, DICE <- {1}, kind <- "", game <- "", begun <- <<>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
CH  == 64
Idx == c + (l - 1) * CH
R   == Trace[Idx]
In  == l > 0
Init == c \in 1..CH /\ l = 0
Next == c + l * CH <= Len(Trace) /\ l' = l + 1 /\ UNCHANGED c
Spec == Init /\ [][Next]_<<c, l>>
View == <<c, l>>

GAMES_OF_A_MATCH == 400
C31 == In =>
    CASE R.k = "new"  -> R.ok /\ \A i \in 1..Len(R.starts) : B!BoardOk(R.game, R.starts[i]) /\ R.starts[i].p = -1
      [] R.k = "dice" -> R.bad = 0 /\ B!Even(R.count) /\ B!EvenNumbers(R.count)
      [] R.k = "match" -> /\ R.ok /\ Len(R.starts) = GAMES_OF_A_MATCH /\ R.ids = GAMES_OF_A_MATCH
                          /\ \A i \in 1..Len(R.starts) : B!Begins(R.game, R.starts[i])
                          /\ B!InTurn("match", GAMES_OF_A_MATCH, R.starts)
      [] R.k = "selfplay" -> /\ R.ok /\ Len(R.starts) = R.n
                             /\ \A i \in 1..Len(R.starts) : B!Begins(R.game, R.starts[i])
                             /\ B!InTurn("selfplay", R.n, R.starts)
=============================================================================
