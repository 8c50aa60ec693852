----------------------------- MODULE TraceFiles -----------------------------
(***************************************************************************)
(* Recorded histories of saving and loading, training passes, train        *)
(* commands.  One record = one history; the step m walks through its       *)
(* events, the specification's files follow.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES c, l, m, data, models, games, seen
F == INSTANCE Files WITH Dirs <- 0..2, Samples <- {}, Paths <- 1..3, Nets <- {}, Folders <- 1..2, GameIds <- {}
P == INSTANCE TrainPass WITH MaxN <- 0, MaxB <- 0, n <- 0, b <- 0, order <- <<>>, k <- 0, step <- <<>>, weight <- <<>>

Trace == ndJsonDeserialize(IOEnv.TRACE)
CH == 64
R  == Trace[c + (l - 1) * CH]
Has(x) == x \in DOMAIN R
Ev == R.ev[m]

Fresh == /\ data' = [d \in 0..2 |-> <<>>] /\ models' = [p \in 1..3 |-> 0]
         /\ games' = [f \in 1..2 |-> {}] /\ seen' = <<"none">>
Init == /\ c \in 1..CH /\ l = 0 /\ m = 0 /\ data = [d \in 0..2 |-> <<>>] /\ models = [p \in 1..3 |-> 0]
        /\ games = [f \in 1..2 |-> {}] /\ seen = <<"none">>
AtEnd == IF l = 0 THEN TRUE ELSE IF Has("ev") THEN m = Len(R.ev) ELSE TRUE
NextRecord == AtEnd /\ c + l * CH <= Len(Trace) /\ l' = l + 1 /\ m' = 0 /\ Fresh /\ UNCHANGED c
\* the files of the specification follow the recorded operations; what is read is what they hold
Follow(e) ==
    CASE R.k = "dataset" /\ e.op = "save" -> F!SaveData(e.d, e.data)
      [] R.k = "dataset" /\ e.op = "load" -> F!LoadData(e.d)
      [] R.k = "models" /\ e.op = "save"  -> F!SaveModel(e.p, e.id)
      [] R.k = "models" /\ e.op = "spoil" -> F!Spoil(e.p)
      [] R.k = "models" /\ e.op \in {"load", "begin", "default"} -> F!LoadModel(e.p)
      [] R.k = "games" /\ e.op = "save"   -> F!SaveGame(e.f, <<e.g, e.as>>)
      [] R.k = "games" /\ e.op \in {"load", "loadall"} -> F!LoadGames(e.f)
NextEvent == ~AtEnd /\ m' = m + 1 /\ UNCHANGED <<c, l>> /\ Follow(R.ev[m + 1])
Next == NextRecord \/ NextEvent
Spec == Init /\ [][Next]_<<c, l, m, data, models, games, seen>>
V == <<c, l, m>>
In(k) == IF l = 0 \/ m = 0 THEN FALSE ELSE R.k = k
At(k) == IF l = 0 THEN FALSE ELSE R.k = k

(***************************************************************************)
(* C19                                                                     *)
(***************************************************************************)
C19 == In("dataset") => /\ Ev.ok
                        /\ Ev.op = "load" => seen = <<"data", Ev.d, Ev.data>>

(***************************************************************************)
(* C22: a readable file gives its network, everything else is refused (0); *)
(* training goes on from what was loaded                                   *)
(***************************************************************************)
Known == { R.ev[i].id : i \in { j \in 1..m : R.ev[j].op = "save" } }
\* a best model that is there but cannot be read is refused, too
BestUnreadable == LET js == { j \in 1..(m - 1) : R.ev[j].op \in {"save", "spoil"} /\ R.ev[j].p = 3 }
                  IN  js # {} /\ LET j == CHOOSE x \in js : \A y \in js : y <= x IN R.ev[j].op = "spoil" /\ R.ev[j].how # 0
C22 == In("models") =>
    /\ Ev.op = "save" => Ev.ok
    /\ Ev.op \in {"load", "begin"} => seen = <<"model", Ev.p, Ev.id>>
    \* without a file there is a best model to begin with, or none and a new network
    /\ Ev.op = "default" => IF models[3] # F!ABSENT THEN Ev.id = models[3]
                            ELSE Ev.id \notin Known /\ (Ev.id = 0 => BestUnreadable)
    /\ Ev.op \in {"begin", "default"} => Ev.moved /\ Ev.near
C22refused == (In("models") /\ m > 1) => (Ev.op = "default" /\ BestUnreadable => Ev.id = 0)

(***************************************************************************)
(* C26                                                                     *)
(***************************************************************************)
Bag(s) == [x \in F!Range(s) |-> Cardinality({ i \in 1..Len(s) : s[i] = x })]
C26 == In("games") =>
    /\ Ev.ok
    /\ Ev.op = "loadall" => /\ Len(Ev.got) = Cardinality(games[Ev.f])
                            /\ F!Range(Ev.got) = { g[2] : g \in games[Ev.f] }
    /\ Ev.op = "load" => Ev.as \in { g[2] : g \in games[Ev.f] }
C26match == At("match") => R.ok /\ Len(R.got) = Len(R.saved) /\ Bag(R.got) = Bag(R.saved)
\* the play command leaves every game of its match, between the agents asked for, and each can be shown
C26cli == At("play") => /\ R.ok /\ R.shown /\ Len(R.got) = R.n
                        /\ \A i \in 1..Len(R.got) : R.got[i].win \in {"none", R.a[1], R.a[2]}
                        /\ Cardinality({ R.got[i].all : i \in 1..Len(R.got) }) = R.n
                        /\ F!Range(R.named) \subseteq {R.a}
\* every game takes turns: a record without any cannot be replayed
Replayable(g) == g.turns > 0
C26replay == At("match") => \A i \in 1..Len(R.saved) : Replayable(R.saved[i])

(***************************************************************************)
(* C27: got[i] is <<step, target, outcome>> of the i-th sample             *)
(***************************************************************************)
C27 == At("pass") => LET n == Len(R.want) IN
    /\ R.ok /\ Len(R.got) = n
    /\ \A i \in 1..n : R.got[i][2] = R.want[i][2] /\ R.got[i][3] = R.want[i][3] /\ R.got[i][1] \in 1..P!Steps(n, R.b)
    /\ P!UsedOnce(n, R.b, [i \in 1..n |-> R.got[i][1]])
    \* no two samples are alike
    /\ Len(R.kept) = n /\ F!Range(R.kept) = F!Range(R.want)

(***************************************************************************)
(* C21: how often the train command used the i-th data set                 *)
(***************************************************************************)
Tree == { R.tree[i].at : i \in 1..Len(R.tree) }
C21 == At("train") =>
    IF F!WellFormed(R.ask) /\ F!Exists(Tree, R.ask)
    THEN /\ R.ok /\ R.one
         /\ \A i \in 1..Len(R.tree) : R.used[i] = IF F!InScope(R.ask, R.tree[i].at) THEN 1 ELSE 0
    ELSE ~R.ok /\ ~R.wrote
=============================================================================
