------------------------------- MODULE Match -------------------------------
(***************************************************************************)
(* A match: an even number of games between two agents, half of them begun *)
(* by each.  In a round every unfinished game takes one turn, decided by   *)
(* the agent whose seat belongs to the side to move (seat 1 plays side -1, *)
(* seat 2 plays side +1).  Games end when they are won or drawn, at the    *)
(* latest after Limit turns (then as a draw).                              *)
(*                                                                         *)
(* A game graph is a sequence of [p, w, to, code, pass], as in SelfPlay.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
SeqRange(s) == { s[i] : i \in 1..Len(s) }

Seat(p) == IF p = -1 THEN 1 ELSE 2
Codes(G, v)   == SeqRange(G[v].code)
Succ(G, v, c) == G[v].to[CHOOSE j \in 1..Len(G[v].code) : G[v].code[j] = c]
PASS == -1
Goes(G, v, c, x) == IF c = PASS THEN Len(G[v].to) = 0 /\ x = G[v].pass
                    ELSE c \in Codes(G, v) /\ x = Succ(G, v, c)

(***************************************************************************)
(* Judging one recorded game: a sequence of positions, W(i) the result in  *)
(* the i-th of them (2: not finished).                                     *)
(***************************************************************************)
\* the game is played on exactly until it is finished or its turns are used up
Span(first, last, W(_), limit) ==
    /\ \A i \in first..(last - 1) : W(i) = 2
    /\ last - first <= limit
    /\ W(last) # 2 \/ last - first = limit
\* 1: seat one won, 2: seat two won, 0: neither
Won(w) == IF w = -1 THEN 1 ELSE IF w = 1 THEN 2 ELSE 0
\* a match of n games, sb of them begun by seat 1
TotalsOK(n, sb, t, r) == /\ n > 0 /\ n % 2 = 0 /\ 2 * sb = n
                         /\ r.w1 = t[1] /\ r.w2 = t[2] /\ r.dr = t[3] /\ r.n = n /\ t[1] + t[2] + t[3] = n
                         /\ r.rate * n - t[1] * 1000000 \in (-n)..n
\* what a search leaves behind tells which agent thought about a turn
Kind(kids, seen) == IF seen > 0 THEN "model" ELSE IF kids > 0 THEN "mcts" ELSE "random"

(***************************************************************************)
(* The transition system                                                   *)
(***************************************************************************)
CONSTANTS Graphs, HalfGames, Limit
VARIABLES gr, at, turns, live, tally, by
G == Graphs[gr]
Games == 1..(2 * HalfGames)
vars == <<gr, at, turns, live, tally, by>>
\* the first half begins at position 1, the other one after a pass there
First(i) == IF i <= HalfGames THEN 1 ELSE G[1].pass
Init == /\ gr \in 1..Len(Graphs)
        /\ at = [i \in Games |-> First(i)]
        /\ turns = [i \in Games |-> 0] /\ live = Games /\ tally = <<0, 0, 0>>
        /\ by = [i \in Games |-> <<>>]
Slot(w) == IF Won(w) = 0 THEN 3 ELSE Won(w)
Turn(i) ==
    /\ i \in live
    /\ \E c \in Codes(G, at[i]) \cup {PASS}, x \in 1..Len(G) :
         /\ Goes(G, at[i], c, x)
         /\ at' = [at EXCEPT ![i] = x]
         /\ turns' = [turns EXCEPT ![i] = @ + 1]
         /\ by' = [by EXCEPT ![i] = Append(@, <<Seat(G[at[i]].p), at[i], c>>)]
         /\ IF G[x].w # 2 \/ turns[i] + 1 >= Limit
            THEN live' = live \ {i} /\ tally' = [tally EXCEPT ![Slot(G[x].w)] = @ + 1]
            ELSE UNCHANGED <<live, tally>>
    /\ UNCHANGED gr
Next == (\E i \in Games : Turn(i)) \/ (live = {} /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Count(S, P(_)) == Cardinality({ i \in S : P(i) })
Tallied == LET over == Games \ live IN
    /\ tally[1] = Count(over, LAMBDA i : G[at[i]].w = -1)
    /\ tally[2] = Count(over, LAMBDA i : G[at[i]].w = 1)
    /\ tally[1] + tally[2] + tally[3] = Cardinality(over)
Fair == 2 * Count(Games, LAMBDA i : G[First(i)].p = -1) = Cardinality(Games)
Path(i) == [j \in 1..(Len(by[i]) + 1) |-> IF j <= Len(by[i]) THEN by[i][j][2] ELSE at[i]]
InTime == \A i \in Games : /\ turns[i] <= Limit
                           /\ i \notin live => Span(1, Len(by[i]) + 1, LAMBDA j : G[Path(i)[j]].w, Limit)
Deciders == \A i \in Games : \A j \in 1..Len(by[i]) :
    by[i][j][1] = Seat(G[by[i][j][2]].p) /\ (by[i][j][3] = PASS <=> Len(G[by[i][j][2]].to) = 0)
Terminates == <>(live = {})
=============================================================================
