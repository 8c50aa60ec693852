------------------------------ MODULE Learning ------------------------------
(***************************************************************************)
(* A learning run: in every learning iteration a number of self-play       *)
(* iterations, each saved as its own data set; training for a number of    *)
(* epochs on what this iteration recorded; the model saved; a match        *)
(* against the best model, which is replaced by a challenger that wins 55% *)
(* of all games or more.                                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

\* wins of n games are 55% or more
Better(w, n) == 100 * w >= 55 * n

(***************************************************************************)
(* What training shows: the first normalisation layer keeps a moving       *)
(* average, which every batch takes a tenth of the way to its own average. *)
(* One epoch over a single batch is one such move.  Fixed point, 1e-4;     *)
(* a quantity x is read as x/4.                                            *)
(***************************************************************************)
RECURSIVE SumOf(_, _, _)
SumOf(fs, X(_), i) == IF i = 0 THEN 0 ELSE X(fs[i]) + SumOf(fs, X, i - 1)
Mean(fs, X(_)) == (SumOf(fs, X, Len(fs)) * 2500) \div Len(fs)
RECURSIVE Moved(_, _, _)
Moved(avg, mean, epochs) == IF epochs = 0 THEN avg ELSE Moved((9 * avg + mean) \div 10, mean, epochs - 1)
Near(x, y) == (x - y) \in (-(20 + x \div 20000))..(20 + x \div 20000)

(***************************************************************************)
(* The transition system.  A sample is a number, a model the sequence of   *)
(* the batches it was trained on.                                          *)
(***************************************************************************)
CONSTANTS L, S, E, N, OldBest
VARIABLES li, si, fresh, recorded, disk, memory, epoch, model, models, best, matches, phase
vars == <<li, si, fresh, recorded, disk, memory, epoch, model, models, best, matches, phase>>
NOBEST == <<<<-1>>>>
Init == /\ li = 1 /\ si = 1 /\ fresh = 1 /\ recorded = <<>> /\ disk = {} /\ memory = <<>> /\ epoch = 0
        /\ model = <<>> /\ models = <<>> /\ best \in {NOBEST} \cup (IF OldBest THEN {<<<<0>>>>} ELSE {}) /\ matches = <<>> /\ phase = "play"
SelfPlay == /\ phase = "play" /\ si <= S
            /\ \E k \in 1..2 : LET new == [j \in 1..k |-> fresh + j - 1] IN
                 /\ fresh' = fresh + k
                 /\ recorded' = Append(recorded, <<li, si, new>>)
                 /\ disk' = disk \cup {<<li, si, new>>}
                 /\ memory' = memory \o new
            /\ si' = si + 1
            /\ phase' = IF si = S THEN "train" ELSE "play"
            /\ UNCHANGED <<li, epoch, model, models, best, matches>>
Train == /\ phase = "train"
         /\ IF epoch < E THEN model' = Append(model, memory) /\ epoch' = epoch + 1 /\ UNCHANGED <<models, phase>>
            ELSE models' = Append(models, model) /\ phase' = "match" /\ UNCHANGED <<model, epoch>>
         /\ UNCHANGED <<li, si, fresh, recorded, disk, memory, best, matches>>
\* any result is possible
Match == /\ phase = "match"
         /\ IF best = NOBEST THEN best' = model /\ UNCHANGED matches
            ELSE \E w \in 0..N : /\ best' = IF Better(w, N) THEN model ELSE best
                                 /\ matches' = Append(matches, <<best, model, w, best'>>)
         /\ li' = li + 1 /\ si' = 1 /\ epoch' = 0 /\ memory' = <<>>
         /\ phase' = IF li = L THEN "done" ELSE "play"
         /\ UNCHANGED <<fresh, recorded, disk, model, models>>
Next == SelfPlay \/ Train \/ Match \/ (phase = "done" /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Range(s) == { s[i] : i \in 1..Len(s) }
OnDisk == phase = "done" =>
    /\ disk = Range(recorded)
    /\ \A l \in 1..L, s \in 1..S : Cardinality({ d \in disk : d[1] = l /\ d[2] = s }) = 1
    /\ \A d1, d2 \in disk : d1 # d2 => Range(d1[3]) \cap Range(d2[3]) = {}
Own(l) == UNION { Range(d[3]) : d \in { x \in Range(recorded) : x[1] = l } }
TrainedOnOwn == phase = "done" =>
    /\ Len(models) = L /\ Len(model) = L * E
    /\ \A l \in 1..L : /\ Len(models[l]) = l * E
                       /\ \A e \in ((l - 1) * E + 1)..(l * E) : Range(models[l][e]) = Own(l) /\ Len(models[l][e]) = Cardinality(Own(l))
\* the best model never loses its place to anything that did not win 55%
BestKept == /\ \A i \in 1..Len(matches) : LET x == matches[i] IN (x[4] # x[1] => 20 * x[3] >= 11 * N) /\ (20 * x[3] >= 11 * N => x[4] = x[2])
            /\ phase = "done" => best # NOBEST
Finishes == <>(phase = "done")
=============================================================================
