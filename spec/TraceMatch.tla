----------------------------- MODULE TraceMatch -----------------------------
(***************************************************************************)
(* Every game of every recorded match must be a game of the specification, *)
(* and the totals must be those of its games.  One record = one match; the *)
(* step m walks through its games, t and sb tally them.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES c, l, m, t, sb, gr, at, turns, live, tally, by
M == INSTANCE Match WITH Graphs <- <<>>, HalfGames <- 0, Limit <- 0
LIMIT == 400

Trace == ndJsonDeserialize(IOEnv.TRACE)
CH == 64
R  == Trace[c + (l - 1) * CH]
hidden == <<gr, at, turns, live, tally, by>>

Game(i) == R.games[i]
\* a start position always offers moves, so a pass there opens a game begun by the other side
First(g) == IF g.path[1][2] = M!PASS THEN 2 ELSE 1
X(g, j) == g.path[j][1]
Script == R.game = "script"
Placed(g) == ~Script \/ \A j \in 1..Len(g.path) : X(g, j) \in 1..Len(R.graph)
W(g, j) == IF Script THEN R.graph[X(g, j)].w ELSE X(g, j).w
P(g, j) == IF Script THEN R.graph[X(g, j)].p ELSE X(g, j).p
NMoves(g, j) == IF Script THEN Len(R.graph[X(g, j)].to) ELSE X(g, j).n
Last(g) == Len(g.path)

Init == c \in 1..CH /\ l = 0 /\ m = 0 /\ t = <<0, 0, 0>> /\ sb = 0 /\ gr = 0 /\ at = 0 /\ turns = 0 /\ live = 0 /\ tally = 0 /\ by = 0
NextRecord == /\ c + l * CH <= Len(Trace) /\ IF l = 0 THEN TRUE ELSE m = Len(R.games)
              /\ l' = l + 1 /\ m' = 0 /\ t' = <<0, 0, 0>> /\ sb' = 0
NextGame == /\ IF l = 0 THEN FALSE ELSE m < Len(R.games)
            /\ m' = m + 1 /\ l' = l
            /\ LET g == Game(m + 1)
                   k == M!Won(W(g, Last(g)))
               IN  /\ t' = [t EXCEPT ![IF k = 0 THEN 3 ELSE k] = @ + 1]
                   /\ sb' = sb + (IF P(g, First(g)) = -1 THEN 1 ELSE 0)
Next == (NextRecord \/ NextGame) /\ UNCHANGED <<c, hidden>>
Spec == Init /\ [][Next]_<<c, l, m, t, sb, hidden>>
V == <<c, l, m>>

(***************************************************************************)
(* C24: totals and named winners                                           *)
(***************************************************************************)
Name(k) == IF k = 0 THEN "none" ELSE R.a[k]
C24game == (l > 0 /\ m > 0 /\ R.ok) =>
    LET g == Game(m) IN
    /\ Len(g.rec) = 1
    /\ g.rec[1].p1 = R.a[1] /\ g.rec[1].p2 = R.a[2]
    /\ g.rec[1].win = Name(M!Won(W(g, Last(g))))
C24all == (l > 0 /\ m = Len(R.games)) =>
    /\ R.ok /\ R.who = R.a /\ R.listed = m
    /\ M!TotalsOK(m, sb, t, R)

(***************************************************************************)
(* C25: who decides, and for how long                                      *)
(***************************************************************************)
Half(code) == IF code < 6 THEN 1 ELSE 2
StepOK(g, j) ==
    /\ IF Script THEN M!Goes(R.graph, X(g, j), g.path[j][2], X(g, j + 1))
       ELSE X(g, j).ok /\ (g.path[j][2] = M!PASS) = (X(g, j).n = 0)
    \* an agent with a choice leaves traces: what it looked at, and the codes its network prefers
    /\ NMoves(g, j) >= 2 =>
         LET s == M!Seat(P(g, j)) IN
         /\ M!Kind(g.path[j][3], g.path[j][4]) = R.a[s]
         /\ (Script /\ R.a[s] = "model" /\ \E x \in M!Codes(R.graph, X(g, j)) : Half(x) = s) => Half(g.path[j][2]) = s
C25game == (l > 0 /\ m > 0) =>
    LET g == Game(m) IN
    /\ Placed(g)
    /\ First(g) = 2 => Last(g) >= 2
    /\ M!Span(First(g), Last(g), LAMBDA j : W(g, j), LIMIT)
    /\ \A j \in First(g)..(Last(g) - 1) : StepOK(g, j)
C25ok == l > 0 => R.ok
=============================================================================
