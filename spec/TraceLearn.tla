----------------------------- MODULE TraceLearn -----------------------------
(***************************************************************************)
(* Recorded learning runs and matches against the best model.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES c, l, gr, limit, at, rounds, mem, out, live
LR == INSTANCE Learning WITH L <- 0, S <- 0, E <- 0, N <- 0, OldBest <- FALSE, li <- gr, si <- gr, fresh <- gr, recorded <- gr, disk <- gr,
        memory <- gr, epoch <- gr, model <- gr, models <- gr, best <- gr, matches <- gr, phase <- gr
S  == INSTANCE SelfPlay WITH Graphs <- <<>>, Games <- {}, MaxRounds <- 0

Trace == ndJsonDeserialize(IOEnv.TRACE)
CH == 64
R  == Trace[c + (l - 1) * CH]
hidden == <<gr, limit, at, rounds, mem, out, live>>
Init == c \in 1..CH /\ l = 0 /\ gr = 0 /\ limit = 0 /\ at = 0 /\ rounds = 0 /\ mem = 0 /\ out = 0 /\ live = 0
Next == c + l * CH <= Len(Trace) /\ l' = l + 1 /\ UNCHANGED <<c, hidden>>
Spec == Init /\ [][Next]_<<c, l, hidden>>
IsLearn == l > 0 /\ R.k = "learn"
IsBest  == l > 0 /\ R.k = "best"

(***************************************************************************)
(* C20: data sets                                                          *)
(***************************************************************************)
D == R.data
Lanes(d) == { d.fr[i].lane : i \in 1..Len(d.fr) }
Lane(d, x) == SelectSeq(d.fr, LAMBDA f : f.lane = x)
\* the data set holds all decisions of its games, in order, with their labels
Complete(d) ==
    /\ d.ok /\ \A i \in 1..Len(d.fr) : d.fr[i].v \in 1..Len(R.graph) /\ S!TargetOK(S!Codes(R.graph, d.fr[i].v), d.fr[i].ps)
    /\ Cardinality(Lanes(d)) = R.B
    /\ \A x \in Lanes(d) : LET fs == Lane(d, x) IN
         /\ S!Starts(R.graph, R.limit, R.start, fs)
         /\ \A j \in 1..(Len(fs) - 1) : S!StepSeen(R.graph, R.limit, fs[j], fs[j + 1])
         /\ S!Ends(R.graph, R.limit, fs)
DataOK == (IsLearn /\ R.par) =>
    /\ R.ok /\ R.kept /\ R.odd = 0
    /\ Len(D) = R.L * R.S
    /\ { <<D[i].l, D[i].s>> : i \in 1..Len(D) } = (0..(R.L - 1)) \X (0..(R.S - 1))
    /\ \A i \in 1..Len(D) : Complete(D[i])
    /\ \A i, j \in 1..Len(D) : i # j => Lanes(D[i]) \cap Lanes(D[j]) = {}

(***************************************************************************)
(* C20: training and models                                                *)
(***************************************************************************)
Of(k) == LET ds == SelectSeq(D, LAMBDA d : d.l = k)
             RECURSIVE Cat(_)
             Cat(i) == IF i = 0 THEN <<>> ELSE Cat(i - 1) \o ds[i].fr
         IN  Cat(Len(ds))
\* without data on disk (learning one game at a time) the games are a forced line from the start, one per iteration
RECURSIVE Line(_, _, _)
Line(v, ply, lane) == LET w == S!Walk(R.graph, 1000, v, ply) IN
    IF w.k # "decide" THEN <<>>
    ELSE <<[v |-> w.v, lane |-> lane, ply |-> w.r]>> \o Line(R.graph[w.v].to[1], w.r + 1, lane)
RECURSIVE Lines(_, _)
Lines(lane, n) == IF n = 0 THEN <<>> ELSE Line(R.start, 0, lane) \o Lines(lane + 1, n - 1)
Used(k) == IF R.par THEN Of(k) ELSE Lines(k * R.S, R.S)
Before(k) == IF k = 0 THEN R.avg0 ELSE R.models[k].avg      \* models[k + 1] is iteration k's
AvgOK(k) == LET fs == Used(k)
                X(i) == IF i = 1 THEN LR!Mean(fs, LAMBDA f : f.v - 1) ELSE IF i = 2 THEN LR!Mean(fs, LAMBDA f : f.lane) ELSE LR!Mean(fs, LAMBDA f : f.ply)
            IN  \A i \in 1..3 : LR!Near(LR!Moved(Before(k)[i], X(i), R.E), R.models[k + 1].avg[i])
ModelsOK == IsLearn =>
    /\ R.ok
    /\ \A k \in 1..R.L : R.models[k].ok /\ (R.models[k].same = (R.still \/ R.E = 0))
    /\ R.models[R.L].is_final
    /\ R.still => \A k \in 0..(R.L - 1) : AvgOK(k)
    /\ R.par => R.best

(***************************************************************************)
(* C23: the best model                                                     *)
(***************************************************************************)
Wins == Cardinality({ i \in 1..Len(R.lanes) : R.lanes[i] < R.wins })
BestOK == IsBest =>
    /\ R.ok
    /\ IF ~R.had THEN R.is = "new" /\ R.lanes = <<>>
       ELSE /\ Len(R.lanes) > 0
            /\ IF LR!Better(Wins, Len(R.lanes)) THEN R.is = "new" ELSE R.is = "old" /\ R.untouched
=============================================================================
