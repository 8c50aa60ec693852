------------------------------ MODULE TicTacToe ------------------------------
(***************************************************************************)
(* Tic-tac-toe: the complete game from either starting side.               *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences
VARIABLES board, player
Cells == 1..9
Lines == { {1,2,3}, {4,5,6}, {7,8,9}, {1,4,7}, {2,5,8}, {3,6,9}, {1,5,9}, {3,5,7} }
Empties(b) == { i \in Cells : b[i] = 0 }
HasLine(b, s) == \E L \in Lines : \A i \in L : b[i] = s
\* -1, 1: that side has a line; 0: draw; 2: not finished
Result(b) == IF HasLine(b, -1) THEN -1 ELSE IF HasLine(b, 1) THEN 1 ELSE IF Empties(b) = {} THEN 0 ELSE 2
Put(b, p, i) == [b EXCEPT ![i] = p]
Planes(b) == << [i \in Cells |-> IF b[i] = -1 THEN 1 ELSE 0], [i \in Cells |-> IF b[i] = 0 THEN 1 ELSE 0], [i \in Cells |-> IF b[i] = 1 THEN 1 ELSE 0] >>

TypeOK == board \in [Cells -> {-1, 0, 1}] /\ player \in {-1, 1}
Init == board = [i \in Cells |-> 0] /\ player \in {-1, 1}
Play(i) == board[i] = 0 /\ board' = Put(board, player, i) /\ player' = -player
Next == Result(board) = 2 /\ \E i \in Cells : Play(i)
Spec == Init /\ [][Next]_<<board, player>>

\* the rules make sense: never two winners, marks alternate
OneWinner == ~(HasLine(board, -1) /\ HasLine(board, 1))
Alternates == Cardinality({i \in Cells : board[i] = -1}) - Cardinality({i \in Cells : board[i] = 1}) \in -1..1
=============================================================================
