---------------------------- MODULE TraceCommands ----------------------------
(* Are the recorded sessions at the command line behaviours of the           *)
(* specification?                                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES c, l, m, F, D
Cmd == INSTANCE Commands WITH GAMES <- {}, W <- {}, RUNS <- {}, files <- F, dirs <- D, did <- 0
Trace == ndJsonDeserialize(IOEnv.TRACE)
CH  == 64
Idx == c + (l - 1) * CH
R   == Trace[Idx]
In  == l > 0
E   == R.ev[m + 1]
Step == In /\ m < Len(R.ev)

Entry(x) == [kind |-> x.kind, game |-> x.game, w |-> x.w, who |-> x.who]
Paths(list) == LET S == { list[i].p : i \in 1..Len(list) } IN [p \in S |-> Entry(list[CHOOSE i \in 1..Len(list) : list[i].p = p])]
SetIn(s) == { s[i] : i \in 1..Len(s) }

Init == c \in 1..CH /\ l = 0 /\ m = 0 /\ F = <<>> /\ D = {}
NextRecord == /\ c + l * CH <= Len(Trace)
              /\ In => m = Len(R.ev)
              /\ l' = l + 1 /\ m' = 0 /\ UNCHANGED c
              /\ LET X == Trace[c + l * CH] IN F' = Paths(X.files) /\ D' = SetIn(X.dirs)
NextStep == /\ Step /\ m' = m + 1 /\ UNCHANGED <<c, l>>
            \* of the games of a match a few stay in mind
            /\ LET P == Paths(E.put)
                   few == { E.put[i].p : i \in { j \in 1..Len(E.put) : E.put[j].kind # "game" \/ j <= 3 \/ E.put[j].p \in { R.ev[k].file : k \in 1..Len(R.ev) } } }
               IN  F' = [p \in (DOMAIN F \cup few) \ SetIn(E.gone) |-> IF p \in DOMAIN P THEN P[p] ELSE F[p]]
            /\ D' = (D \cup SetIn(E.dirs)) \ SetIn(E.lost)
Next == NextRecord \/ NextStep
Spec == Init /\ [][Next]_<<c, l, m, F, D>>
View == <<c, l, m>>

C30 == Step =>
    LET P == Paths(E.put) N == SetIn(E.dirs) IN
    /\ E.gone = <<>> /\ E.lost = <<>>
    /\ IF Cmd!Refused(F, D, E) THEN ~E.ok /\ E.put = <<>> /\ N = {}
       ELSE /\ E.ok /\ Cmd!Writes(F, D, E, P, N)
            \* nothing recorded is written over
            /\ \A i \in 1..Len(E.put) : E.put[i].was => E.put[i].kind \notin {"game", "set"}
=============================================================================
