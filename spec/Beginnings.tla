----------------------------- MODULE Beginnings -----------------------------
(***************************************************************************)
(* Where games begin: the standard set-up of backgammon, the empty board   *)
(* of tic-tac-toe; the first player (side -1) to move, in the second half  *)
(* of a match the other one; in backgammon the dice rolled, every pair     *)
(* equally likely, and the first play of the turn due.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
\* side -1 (negative) runs down from point 23 to 0, side +1 up
OnPoint(side, dist) == IF side = -1 THEN dist ELSE 23 - dist
\* each side: two men on the farthest point, five on the mid-point, three and five nearer home (distance to the edge minus one)
Men == (23 :> 2) @@ (12 :> 5) @@ (7 :> 3) @@ (5 :> 5)
StartPts == [i \in 1..24 |-> LET down == i - 1 up == 24 - i IN
               IF down \in DOMAIN Men THEN -Men[down] ELSE IF up \in DOMAIN Men THEN Men[up] ELSE 0]
Empty == [i \in 1..9 |-> 0]
RECURSIVE Sum(_, _, _)
Sum(f(_), lo, hi) == IF lo > hi THEN 0 ELSE f(lo) + Sum(f, lo + 1, hi)
Count(pts, side) == Sum(LAMBDA i : IF pts[i] * side > 0 THEN pts[i] * side ELSE 0, 1, 24)
Pips(pts, side)  == Sum(LAMBDA i : IF pts[i] * side > 0 THEN pts[i] * side * (IF side = -1 THEN i ELSE 25 - i) ELSE 0, 1, 24)
ASSUME Count(StartPts, 1) = 15 /\ Count(StartPts, -1) = 15
ASSUME Pips(StartPts, 1) = 167 /\ Pips(StartPts, -1) = 167
ASSUME \A i \in 1..24 : StartPts[i] = -StartPts[25 - i]

Dice == 1..6
BoardOk(game, st) == IF game = "backgammon" THEN st.pts = StartPts /\ st.bar = <<0, 0>> /\ st.off = <<0, 0>> /\ ~st.s
                     ELSE st.b = Empty
Rolled(game, st)  == game = "backgammon" => st.d[1] \in Dice /\ st.d[2] \in Dice
Begins(game, st)  == BoardOk(game, st) /\ Rolled(game, st)

(* every pair of dice equally often, and so every number on either die and *)
(* the doubles together a sixth of the time: within six standard deviations *)
Sixth(k, n) == LET d == 6 * k - n IN (d \div 6) * (d \div 6) <= 5 * n + 40
Even(count) ==
    LET n == Sum(LAMBDA k : count[(k \div 6) + 1][(k - 6 * (k \div 6)) + 1], 0, 35) IN
    \A i, j \in Dice : LET d == 36 * count[i][j] - n IN n > 1000 /\ (d \div 36) * (d \div 36) <= n + 40
EvenNumbers(count) ==
    LET n == Sum(LAMBDA k : count[(k \div 6) + 1][(k - 6 * (k \div 6)) + 1], 0, 35) IN
    /\ Sixth(Sum(LAMBDA i : count[i][i], 1, 6), n)
    /\ \A i \in Dice : Sixth(Sum(LAMBDA j : count[i][j], 1, 6), n) /\ Sixth(Sum(LAMBDA j : count[j][i], 1, 6), n)

(***************************************************************************)
(* The transition system: the games of a match and of a self-play run are  *)
(* begun one after the other.                                              *)
(***************************************************************************)
CONSTANTS N, DICE
VARIABLES kind, game, begun
vars == <<kind, game, begun>>
Init == kind \in {"match", "selfplay"} /\ game \in {"backgammon", "ttt"} /\ begun = <<>>
Fresh(p, d) == IF game = "backgammon" THEN [pts |-> StartPts, bar |-> <<0, 0>>, off |-> <<0, 0>>, p |-> p, d |-> d, s |-> FALSE]
               ELSE [b |-> Empty, p |-> p]
Begin == /\ Len(begun) < N
         /\ \E d \in DICE \X DICE :
              begun' = Append(begun, Fresh(IF kind = "match" /\ Len(begun) >= N \div 2 THEN 1 ELSE -1, d))
         /\ UNCHANGED <<kind, game>>
Next == Begin
Spec == Init /\ [][Next]_vars
\* C31
By(side, list) == Cardinality({ i \in 1..Len(list) : list[i].p = side })
AllBegin == \A i \in 1..Len(begun) : Begins(game, begun[i])
InTurn(k, n, list) == IF k = "match" THEN By(-1, list) * 2 = n /\ By(1, list) * 2 = n ELSE By(-1, list) = n
WhoBegins == Len(begun) = N => InTurn(kind, N, begun)
=============================================================================
