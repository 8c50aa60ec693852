------------------------------ MODULE TraceTTT ------------------------------
(***************************************************************************)
(* TLC walks through the complete game; in every position the record of    *)
(* what the implementation does there (found by its key) must be what the  *)
(* specification says.                                                     *)
(***************************************************************************)
EXTENDS TicTacToe, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Pow3 == <<1, 3, 9, 27, 81, 243, 729, 2187, 6561>>
Key(b, p) == LET d == [i \in Cells |-> (b[i] + 1) * Pow3[i]] IN
             2 * (d[1] + d[2] + d[3] + d[4] + d[5] + d[6] + d[7] + d[8] + d[9]) + (IF p = 1 THEN 1 ELSE 0) + 1
R == Trace[Key(board, player)]
Found == Key(board, player) <= Len(Trace) /\ R.b = board /\ R.p = player

C08 == /\ Found /\ R.ok
       /\ { R.moves[i] + 1 : i \in 1..Len(R.moves) } = Empties(board)
       /\ Len(R.moves) = Cardinality(Empties(board))
       /\ R.w = Result(board)
       /\ \A i \in 1..Len(R.moves) : R.moves[i] + 1 \in Cells =>
            R.next[i].b = Put(board, player, R.moves[i] + 1) /\ R.next[i].p = -player
       /\ R.skip.b = board /\ R.skip.p = -player
C08start == (\A i \in Cells : board[i] = 0) => R.start \in {-1, 1}
C05 == Found /\ \A i \in 1..Len(R.moves) : R.codes[i] = R.moves[i] /\ R.dec[i] = R.moves[i] /\ R.codes[i] \in 0..(R.space - 1)
C07 == Found /\ R.input.shape = <<1, 3, 3, 3>> /\ R.input.planes = Planes(board) /\ R.input.declared = <<3, 9>>
=============================================================================
