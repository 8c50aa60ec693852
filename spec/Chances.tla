------------------------------ MODULE Chances ------------------------------
(***************************************************************************)
(* How a move is chosen among moves that a search visited n[m] times each: *)
(* an urn holds n[m] ^ (1 / temperature) tickets of every move m and one   *)
(* ticket is drawn, anew for every choice.                                 *)
(* 1 / temperature is the fraction a / b, b a power of two.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
One == 10000        \* chances and relative weights in 1e-4
ISqrt(x) == LET RECURSIVE Go(_, _)
                Go(lo, hi) == IF hi - lo <= 1 THEN lo
                              ELSE LET m == (lo + hi) \div 2 IN IF m * m <= x THEN Go(m, hi) ELSE Go(lo, m)
            IN Go(0, 46341)
RECURSIVE Between(_, _, _), Power(_, _), Root(_, _), Most(_, _)
\* f[a] + ... + f[b], in halves
Between(f, a, b) == IF a > b THEN 0 ELSE IF a = b THEN f[a] ELSE LET h == (a + b) \div 2 IN Between(f, a, h) + Between(f, h + 1, b)
Total(f, k) == Between(f, 1, k)
Most(f, k)  == IF k = 1 THEN f[1] ELSE LET r == Most(f, k - 1) IN IF f[k] > r THEN f[k] ELSE r
\* r ^ a and the b-th root of r, for r in 1e-4 and at most 1
Power(r, a) == IF a = 1 THEN r ELSE (r * Power(r, a - 1) + One \div 2) \div One
Root(r, b)  == IF b = 1 THEN r ELSE Root(ISqrt(r * One), b \div 2)
\* weight of every move relative to the most visited one, and its chance
Weights(n, a, b) == LET mx == Most(n, Len(n)) IN [m \in 1..Len(n) |-> Power(Root((n[m] * One + mx \div 2) \div mx, b), a)]
Chance(n, a, b)  == LET w == Weights(n, a, b) t == Total(w, Len(n)) IN [m \in 1..Len(n) |-> (w[m] * One + t \div 2) \div t]

(* Judging N choices: a count may be off by six standard deviations, and   *)
(* by the rounding of the chances.                                         *)
Abs(x) == IF x < 0 THEN -x ELSE x
Plausible(count, N, p) ==
    LET dev == ISqrt(((N * p) \div 100) * ((One - p) \div 100 + 1)) IN      \* in 1e-2
    Abs(count * 100 - (N * p) \div 100) <= 6 * dev + 300 + (N * 40) \div 100
Fair(n, a, b, count) ==
    LET N == Total(count, Len(count)) p == Chance(n, a, b) IN
    /\ Len(count) = Len(n)
    /\ \A m \in 1..Len(n) : (n[m] = 0 => count[m] = 0) /\ Plausible(count[m], N, p[m])
    \* and all moves visited at most v times, together
    /\ \A v \in {n[m] : m \in 1..Len(n)} :
        LET few(f) == Total([m \in 1..Len(n) |-> IF n[m] <= v THEN f[m] ELSE 0], Len(n)) IN
        Plausible(few(count), N, IF few(p) > One THEN One ELSE few(p))

(* Turns of an agent that chooses evenly, each with the number of moves    *)
(* offered and the place of the chosen one in the list: the first j eighths *)
(* of the lists are chosen as often as their lengths demand.               *)
Part(k, j)  == (k * j) \div 8             \* places up to the j-th eighth of k
Even(turns) ==
    LET N == Len(turns) IN
    \A j \in 1..7 :
        LET exp == Total([i \in 1..N |-> (Part(turns[i][1], j) * One) \div turns[i][1]], N)
            got == Cardinality({ i \in 1..N : turns[i][2] <= Part(turns[i][1], j) })
        IN  Abs(got * 100 - exp \div 100) <= 6 * ISqrt((exp \div One + 1) * (One - exp \div N)) + 300

\* two turns of one game, one after the other <<moves, place, moves, place>>: the second choice knows nothing of the first
Unrelated(pairs) ==
    LET N == Len(pairs) IN
    \A j \in {2, 4, 6} :
        LET exp == Total([i \in 1..N |-> (((Part(pairs[i][1], j) * One) \div pairs[i][1]) * Part(pairs[i][3], j)) \div pairs[i][3]], N)
            got == Cardinality({ i \in 1..N : pairs[i][2] <= Part(pairs[i][1], j) /\ pairs[i][4] <= Part(pairs[i][3], j) })
        IN  Abs(got * 100 - exp \div 100) <= 6 * ISqrt((exp \div One + 1) * (One - exp \div N)) + 300

\* turns with different visits, each [n |-> visits, m |-> place of the chosen move]: the most visited moves,
\* and those visited at most half as often, are chosen as often as their chances demand
Drawn(turns, a, b) ==
    LET N == Len(turns)
        Best(n) == {m \in 1..Len(n) : n[m] = Most(n, Len(n))}
        Rare(n) == {m \in 1..Len(n) : 2 * n[m] <= Most(n, Len(n))}
        Agrees(S(_)) ==
            LET p == [i \in 1..N |-> LET q == Chance(turns[i].n, a, b) T == S(turns[i].n) IN
                                       LET x == Total([m \in 1..Len(q) |-> IF m \in T THEN q[m] ELSE 0], Len(q)) IN IF x > One THEN One ELSE x]
                exp == Total(p, N)
                var == Total([i \in 1..N |-> (p[i] * (One - p[i])) \div One], N)
                got == Cardinality({ i \in 1..N : turns[i].m \in S(turns[i].n) })
            IN  Abs(got * 100 - exp \div 100) <= 6 * ISqrt(var + One) + 300 + (N * 40) \div 100
    IN  /\ \A i \in 1..N : turns[i].m \in 1..Len(turns[i].n) /\ turns[i].n[turns[i].m] > 0
        /\ Agrees(Best) /\ Agrees(Rare)

\* the same for choices from one list
EvenPlaces(count) ==
    LET k == Len(count) N == Total(count, k) IN
    \A j \in 1..7 : Plausible(Total(count, Part(k, j)), N, (Part(k, j) * One) \div k)

(* A whole match between two choosers. L[k] lists the positions after k-1  *)
(* turns: how each ended (2: it goes on), or the visits of its moves and   *)
(* where they lead in L[k+1]. Odds: the chance that side q wins from each  *)
(* position of L[k].                                                       *)
RECURSIVE Odds(_, _, _, _, _)
Odds(L, k, a, b, q) ==
    LET after == IF k = Len(L) THEN <<>> ELSE TLCEval(Odds(L, k + 1, a, b, q)) IN
    [i \in 1..Len(L[k]) |->
        LET x == L[k][i] IN
        IF x.e # 2 THEN IF x.e = q THEN One ELSE 0
        ELSE LET w == TLCEval(Weights(x.n, a, b)) t == Total(w, Len(w)) IN
             (Total([m \in 1..Len(w) |-> w[m] * after[x.to[m]]], Len(w)) + t \div 2) \div t]
\* every side begins half of the games, from the two positions of L[1]
Chance2(odds) == (odds[1] + odds[2]) \div 2
Expected(L, a, b, q) == Chance2(Odds(L, 1, a, b, q))
AsExpected(L, a, b, first, second, drawn_) ==
    LET N == first + second + drawn_ p == Expected(L, a, b, -1) r == Expected(L, a, b, 1) IN
    /\ Plausible(first, N, p) /\ Plausible(second, N, r)
    /\ Plausible(drawn_, N, IF p + r > One THEN 0 ELSE One - p - r)

(***************************************************************************)
(* The transition system: searches show visits, choices draw tickets.      *)
(***************************************************************************)
CONSTANTS MOVES, MOSTVISITS, INVERSES    \* INVERSES: whole inverses of temperatures
VARIABLES n, t, drawn
vars == <<n, t, drawn>>
RECURSIVE Pow(_, _)
Pow(x, k) == IF k = 0 THEN 1 ELSE x * Pow(x, k - 1)
Tickets(m) == Pow(n[m], t)
All == Total([m \in 1..MOVES |-> Tickets(m)], MOVES)
Init == /\ n \in [1..MOVES -> 0..MOSTVISITS] /\ \E m \in 1..MOVES : n[m] > 0
        /\ t \in INVERSES /\ drawn = 0
Draw == \E m \in 1..MOVES : Tickets(m) > 0 /\ drawn' = m /\ UNCHANGED <<n, t>>
Search == \E m \in 1..MOVES : n[m] < MOSTVISITS /\ n' = [n EXCEPT ![m] = @ + 1] /\ drawn' = 0 /\ UNCHANGED t
Next == Draw \/ Search
Spec == Init /\ [][Next]_vars

\* C29
OnlyVisited  == drawn # 0 => n[drawn] > 0
MoreVisitsMoreChance == LET p == Chance(n, t, 1) IN \A x, y \in 1..MOVES : n[x] >= n[y] => p[x] >= p[y]
PlainShares  == t = 1 => LET p == Chance(n, 1, 1) IN \A m \in 1..MOVES : Abs(p[m] * Total(n, MOVES) - n[m] * One) <= 2 * Total(n, MOVES) * MOVES
\* the fixed-point chances are those of the urn
AsTickets    == LET p == Chance(n, t, 1) IN \A m \in 1..MOVES : Abs(p[m] - (Tickets(m) * One) \div All) <= 20
CoolerIsGreedier == LET p == Chance(n, t, 1) q == Chance(n, t + 1, 1) h == Chance(n, 1, 2) IN
                    \A m \in 1..MOVES : n[m] = Most(n, MOVES) => q[m] >= p[m] - 3 /\ h[m] <= Chance(n, 1, 1)[m] + 3
\* a choice that always falls on the same move is not a fair one, unless there is no other
NotAlwaysTheSame == \A m \in 1..MOVES : (Chance(n, t, 1)[m] < 8000 /\ n[m] > 0) => ~Fair(n, t, 1, [x \in 1..MOVES |-> IF x = m THEN 500 ELSE 0])
NotOnlyTheFirst == LET three == <<600, 600, 600, 600, 600, 600, 600, 0>> IN ~EvenPlaces(three) /\ EvenPlaces([i \in 1..8 |-> 525])
\* one turn: the odds are the chances of the moves that win; a turn chosen evenly before it changes nothing; and
\* a sure win is sure whatever the turns
Ends(e) == [m \in 1..MOVES |-> [e |-> IF m = e THEN 1 ELSE 0, n |-> <<>>, to |-> <<>>]]
Turn == [e |-> 2, n |-> n, to |-> [m \in 1..MOVES |-> m]]
Evenly == [e |-> 2, n |-> [m \in 1..2 |-> 1], to |-> <<1, 2>>]
OddsOfATurn == LET p == Chance(n, t, 1) IN \A m \in 1..MOVES :
    LET one == Odds(<<<<Turn>>, Ends(m)>>, 1, t, 1, 1)[1] two == Odds(<<<<Evenly>>, <<Turn, Turn>>, Ends(m)>>, 1, t, 1, 1)[1] IN
    Abs(one - p[m]) <= 2 /\ Abs(two - p[m]) <= 3 /\ Odds(<<<<Turn>>, Ends(m)>>, 1, t, 1, -1)[1] = 0
SureWins == LET won == [m \in 1..MOVES |-> [e |-> 1, n |-> <<>>, to |-> <<>>]] IN Odds(<<<<Evenly>>, <<Turn, Turn>>, won>>, 1, t, 1, 1)[1] = One
\* rounded expectations are fair
ExpectedIsFair == Fair(n, t, 1, [m \in 1..MOVES |-> (500 * Tickets(m)) \div All])
=============================================================================
