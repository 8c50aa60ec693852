------------------------------ MODULE SelfPlay ------------------------------
(***************************************************************************)
(* Batch self-play: several games of a named-position game run side by     *)
(* side.  In a round every game takes one turn: a decision (the position   *)
(* and the search's distribution are remembered, a move with positive      *)
(* probability is played), or a pass where no move is offered.  A game     *)
(* that is won or drawn hands in its positions, labelled by the result for *)
(* the side to move; so does a game that has used up its rounds, labelled  *)
(* 0.                                                                      *)
(*                                                                         *)
(* A game graph is a sequence of [p, w, to, code, pass]; a sample is       *)
(*   [v, lane, ply, out, ps]: position, game, turns before it, label,      *)
(* target as pairs <<code, probability in 1e-6>>.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Million == 1000000
SeqRange(s) == { s[i] : i \in 1..Len(s) }
RECURSIVE Total(_, _)
Total(ps, i) == IF i = 0 THEN 0 ELSE ps[i][2] + Total(ps, i - 1)

Codes(G, v)   == SeqRange(G[v].code)
Succ(G, v, c) == G[v].to[CHOOSE j \in 1..Len(G[v].code) : G[v].code[j] = c]

(***************************************************************************)
(* C17: targets and legal games                                            *)
(***************************************************************************)
TargetOK(codes, ps) ==
    /\ \A i \in 1..Len(ps) : ps[i][1] \in codes /\ ps[i][2] \in 0..(Million + 50)
    /\ \A i, j \in 1..Len(ps) : i # j => ps[i][1] # ps[j][1]
    /\ Total(ps, Len(ps)) \in (Million - 200)..(Million + 200)
\* the share of visits that the search of that position gave every move; found: pairs <<code, visits>>
Diff(x, y) == IF x < y THEN y - x ELSE x - y
SharesOf(found, ps) ==
    LET all == Total(found, Len(found))
        Of(x) == { i \in 1..Len(ps) : ps[i][1] = x }
    IN /\ all > 0
       /\ \A i \in 1..Len(found) : LET x == found[i] IN
            IF x[2] = 0 THEN Of(x[1]) = {}
            ELSE \E j \in Of(x[1]) : Diff(ps[j][2], (x[2] * Million) \div all) <= 60
       /\ \A j \in 1..Len(ps) : \E i \in 1..Len(found) : found[i][1] = ps[j][1]
Searched(f) == \E k \in 1..Len(f.seen) : SharesOf(f.seen[k], f.ps)
Played(ps) == { ps[i][1] : i \in { j \in 1..Len(ps) : ps[j][2] > 0 } }

\* from x with r rounds used: passes are forced; where does the game come to, at most L rounds?
Walk(G, L, x, r) ==
    LET RECURSIVE Go(_, _)
        Go(y, n) == IF G[y].w # 2 THEN [k |-> "over", v |-> y, r |-> n]
                    ELSE IF n >= L THEN [k |-> "stop", v |-> y, r |-> n]
                    ELSE IF Len(G[y].to) = 0 THEN Go(G[y].pass, n + 1)
                    ELSE [k |-> "decide", v |-> y, r |-> n]
    IN Go(x, r)
Decide(f) == [k |-> "decide", v |-> f.v, r |-> f.ply]

\* fs: the samples of one game, in order
Starts(G, L, start, fs) == Walk(G, L, start, 0) = Decide(fs[1])
\* any move / a move that the target gives weight
StepAny(G, L, f, g)  == \E c \in Codes(G, f.v) : Walk(G, L, Succ(G, f.v, c), f.ply + 1) = Decide(g)
StepSeen(G, L, f, g) == \E c \in Played(f.ps) \cap Codes(G, f.v) : Walk(G, L, Succ(G, f.v, c), f.ply + 1) = Decide(g)

(***************************************************************************)
(* C18: labels and endings                                                 *)
(***************************************************************************)
Label(G, f, w) == IF w = 0 THEN 0 ELSE w * G[f.v].p
Ends(G, L, fs) ==
    \E c \in Played(fs[Len(fs)].ps) \cap Codes(G, fs[Len(fs)].v) :
       LET f == fs[Len(fs)]
           e == Walk(G, L, Succ(G, f.v, c), f.ply + 1)
       IN  /\ e.k # "decide"
           /\ \A i \in 1..Len(fs) : fs[i].out = IF e.k = "over" THEN Label(G, fs[i], G[e.v].w) ELSE 0

(***************************************************************************)
(* The transition system                                                   *)
(***************************************************************************)
CONSTANTS Graphs, Games, MaxRounds
VARIABLES gr, limit, at, rounds, mem, out, live
G == Graphs[gr]
vars == <<gr, limit, at, rounds, mem, out, live>>

Init == /\ gr \in 1..Len(Graphs) /\ limit \in 0..MaxRounds
        /\ at = [i \in Games |-> 1] /\ rounds = [i \in Games |-> 0]
        /\ mem = [i \in Games |-> <<>>] /\ out = <<>> /\ live = Games

Labelled(m, w) == [j \in 1..Len(m) |-> [m[j] EXCEPT !.out = Label(G, m[j], w)]]
Stop(i) == /\ i \in live /\ rounds[i] >= limit
           /\ out' = out \o Labelled(mem[i], 0) /\ live' = live \ {i}
           /\ UNCHANGED <<gr, limit, at, rounds, mem>>
Pass(i) == /\ i \in live /\ rounds[i] < limit /\ Len(G[at[i]].to) = 0
           /\ at' = [at EXCEPT ![i] = G[@].pass] /\ rounds' = [rounds EXCEPT ![i] = @ + 1]
           /\ UNCHANGED <<gr, limit, mem, out, live>>
\* what the search found: all visits to one move, or as many to each
Finds(v) == LET n == Len(G[v].code) IN
    { [j \in 1..n |-> <<G[v].code[j], IF j = k THEN 2 ELSE 0>>] : k \in 1..n } \cup { [j \in 1..n |-> <<G[v].code[j], 1>>] }
Shares(found) == SelectSeq([j \in 1..Len(found) |-> <<found[j][1], (found[j][2] * Million) \div Total(found, Len(found))>>], LAMBDA x : x[2] > 0)
Decision(i) ==
    /\ i \in live /\ rounds[i] < limit /\ Len(G[at[i]].to) > 0
    /\ \E found \in Finds(at[i]) : \E c \in Played(Shares(found)) :
         LET f == [v |-> at[i], lane |-> i, ply |-> rounds[i], out |-> 0, ps |-> Shares(found), seen |-> <<found>>]
             m == Append(mem[i], f)
             x == Succ(G, at[i], c)
         IN  /\ at' = [at EXCEPT ![i] = x] /\ rounds' = [rounds EXCEPT ![i] = @ + 1]
             /\ mem' = [mem EXCEPT ![i] = m]
             /\ IF G[x].w # 2 THEN out' = out \o Labelled(m, G[x].w) /\ live' = live \ {i}
                ELSE UNCHANGED <<out, live>>
    /\ UNCHANGED <<gr, limit>>
Next == (\E i \in Games : Stop(i) \/ Pass(i) \/ Decision(i)) \/ (live = {} /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Lane(o, i) == SelectSeq(o, LAMBDA f : f.lane = i)
Complete == live = {} => \A i \in Games :
    LET fs == Lane(out, i) IN
    IF fs = <<>> THEN Walk(G, limit, 1, 0).k # "decide"
    ELSE /\ Starts(G, limit, 1, fs) /\ Ends(G, limit, fs)
         /\ \A j \in 1..(Len(fs) - 1) : StepSeen(G, limit, fs[j], fs[j + 1])
         /\ \A j \in 1..Len(fs) : TargetOK(Codes(G, fs[j].v), fs[j].ps) /\ Searched(fs[j])
InTime == \A i \in Games : rounds[i] <= limit
Terminates == <>(live = {})
=============================================================================
