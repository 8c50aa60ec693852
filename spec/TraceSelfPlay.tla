--------------------------- MODULE TraceSelfPlay ---------------------------
(***************************************************************************)
(* The samples a self-play run returned must be what games of the          *)
(* specification hand in.  One record = one run.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES c, l, gr, limit, at, rounds, mem, out, live, pos, player, roll, second
S  == INSTANCE SelfPlay WITH Graphs <- <<>>, Games <- {}, MaxRounds <- 0
BG == INSTANCE Backgammon WITH N <- 24, H <- 6, NC <- 15, DIE <- 6

Trace == ndJsonDeserialize(IOEnv.TRACE)
CH == 64
R  == Trace[c + (l - 1) * CH]
hidden == <<gr, limit, at, rounds, mem, out, live, pos, player, roll, second>>
Init == c \in 1..CH /\ l = 0 /\ gr = 0 /\ limit = 0 /\ at = 0 /\ rounds = 0 /\ mem = 0 /\ out = 0 /\ live = 0 /\ pos = 0 /\ player = 0 /\ roll = 0 /\ second = 0
Next == c + l * CH <= Len(Trace) /\ l' = l + 1 /\ UNCHANGED <<c, hidden>>
Spec == Init /\ [][Next]_<<c, l, hidden>>

IsScript == l > 0 /\ R.k = "script"
IsReal   == l > 0 /\ R.k = "real"
F == R.fr
Lanes == { F[i].lane : i \in 1..Len(F) }
Lane(i) == SelectSeq(F, LAMBDA f : f.lane = i)
Big == 2000
Placed == \A i \in 1..Len(F) : F[i].v \in 1..Len(R.graph)

(***************************************************************************)
Script17 == IsScript =>
    /\ R.ok /\ Placed
    /\ \A i \in 1..Len(F) : S!TargetOK(S!Codes(R.graph, F[i].v), F[i].ps) /\ R.graph[F[i].v].w = 2 /\ S!Searched(F[i])
    /\ \A x \in Lanes : LET fs == Lane(x) IN
         /\ S!Starts(R.graph, Big, R.start, fs)
         /\ \A j \in 1..(Len(fs) - 1) : S!StepSeen(R.graph, Big, fs[j], fs[j + 1])
Script18 == IsScript =>
    /\ R.ok /\ Placed
    /\ Cardinality(Lanes) = IF S!Walk(R.graph, R.limit, R.start, 0).k = "decide" THEN R.games ELSE 0
    /\ \A x \in Lanes : LET fs == Lane(x) IN
         /\ fs[1].ply < R.limit \/ ~R.par
         /\ S!Starts(R.graph, R.limit, R.start, fs)
         /\ \A j \in 1..(Len(fs) - 1) : S!StepAny(R.graph, R.limit, fs[j], fs[j + 1])
         /\ S!Ends(R.graph, R.limit, fs)

(***************************************************************************)
(* real games, one per run                                                 *)
(***************************************************************************)
PassPossible(b, p) == R.game = "bg" /\ \E d \in (1..6) \X (1..6) : BG!Outcomes(b, p, d) = {}
Weight(f, j) == \E i \in 1..Len(f.ps) : f.ps[i][1] = f.codes[j] /\ f.ps[i][2] > 0
Goes(f, j, g) == /\ f.next[j].ok /\ f.next[j].key = g.key /\ f.next[j].w = 2
                 /\ f.next[j].p = g.p \/ PassPossible(g.key, -g.p)
Real17 == IsReal =>
    /\ R.ok /\ \A i \in 1..Len(F) : F[i].ok
    /\ \A i \in 1..Len(F) : S!TargetOK(S!SeqRange(F[i].codes), F[i].ps) /\ F[i].w = 2 /\ S!Searched(F[i])
    /\ Len(F) > 0 => F[1].key = R.start.key /\ (F[1].p = R.start.p \/ PassPossible(F[1].key, R.start.p))
    /\ \A i \in 1..(Len(F) - 1) : \E j \in 1..Len(F[i].codes) : Weight(F[i], j) /\ Goes(F[i], j, F[i + 1])
Real18 == IsReal =>
    /\ R.ok /\ \A i \in 1..Len(F) : F[i].ok
    /\ Len(F) <= R.limit
    /\ \A i \in 1..(Len(F) - 1) : \E j \in 1..Len(F[i].codes) : Goes(F[i], j, F[i + 1])
    /\ R.game = "ttt" => Len(F) > 0
    /\ Len(F) > 0 => LET f == F[Len(F)] IN
         \/ \E j \in 1..Len(f.codes) : Weight(f, j) /\ f.next[j].w # 2 /\
              \A i \in 1..Len(F) : F[i].out = IF f.next[j].w = 0 THEN 0 ELSE f.next[j].w * F[i].p
         \/ /\ R.par /\ \A i \in 1..Len(F) : F[i].out = 0
            /\ R.game = "ttt" => Len(F) = R.limit
            /\ \E j \in 1..Len(f.codes) : Weight(f, j) /\ f.next[j].w = 2
=============================================================================
