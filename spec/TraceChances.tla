---------------------------- MODULE TraceChances ----------------------------
(* Were the recorded choices drawn as the specification says?              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES c, l
Urn == INSTANCE Chances WITH MOVES <- 1, MOSTVISITS <- 1, INVERSES <- {1}, n <- <<1>>, t <- 1, drawn <- 0
Trace == ndJsonDeserialize(IOEnv.TRACE)
CH  == 64
Idx == c + (l - 1) * CH
R   == Trace[Idx]
In  == l > 0
Init == c \in 1..CH /\ l = 0
Next == c + l * CH <= Len(Trace) /\ l' = l + 1 /\ UNCHANGED c
Spec == Init /\ [][Next]_<<c, l>>
View == <<c, l>>

C29 == In => IF R.how = "outcome" THEN R.ok /\ R.drawn + R.decided > 0
                \* who won is only printed: where that is not to be read, how many games had a winner
                /\ IF R.said THEN R.won + R.lost = R.decided /\ Urn!AsExpected(R.layers, R.a, R.b, R.won, R.lost, R.drawn)
                   ELSE Urn!Plausible(R.drawn, R.drawn + R.decided, LET p == Urn!Expected(R.layers, R.a, R.b, -1) + Urn!Expected(R.layers, R.a, R.b, 1) IN IF p > Urn!One THEN 0 ELSE Urn!One - p)
             ELSE IF R.how = "late" THEN Len(R.turns) > 0 /\ (LET Of(T(_)) == SelectSeq(R.turns, LAMBDA t : T(t)) IN
                /\ Urn!Drawn(R.turns, R.a, R.b)
                /\ Urn!Drawn(Of(LAMBDA t : t.ply < 10), R.a, R.b) /\ Urn!Drawn(Of(LAMBDA t : t.ply \in 10..29), R.a, R.b) /\ Urn!Drawn(Of(LAMBDA t : t.ply >= 30), R.a, R.b)
                /\ \A q \in {-1, 1} : Urn!Drawn(Of(LAMBDA t : t.p = q), R.a, R.b))
             ELSE IF R.how \in {"even", "playout", "again"} THEN Len(R.turns) > 0 /\ (\A i \in 1..Len(R.turns) : R.turns[i][2] > 0) /\ Urn!Even(R.turns)
                            /\ (LET Many(k) == SelectSeq(R.turns, LAMBDA t : t[1] >= k) IN \A k \in {10, 24, 40} : Len(Many(k)) >= 20 => Urn!Even(Many(k)))
                            /\ (R.how \in {"even", "again"} => Len(R.pairs) > 0 /\ Urn!Unrelated(R.pairs))
                            /\ (R.how = "again" => Len(R.apart) > 0 /\ Urn!Unrelated(R.apart)) ELSE
             R.other = 0 /\ Urn!Total(R.count, Len(R.count)) > 0 /\ Urn!Fair(R.n, R.a, R.b, R.count) /\ (R.how = "wide" => Urn!EvenPlaces(R.count))
=============================================================================
