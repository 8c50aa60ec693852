---------------------------- MODULE MCBackgammon ----------------------------
(* Backgammon on a small board, exhaustively: every start, dice and choice. *)
EXTENDS Backgammon, TLC
CONSTANT StartPts
Init == /\ pos = [pts |-> StartPts, bar |-> <<0, 0>>, off |-> <<0, 0>>]
        /\ player \in Side /\ roll \in Rolls /\ second = FALSE
\* a play that gives the turn away is followed by a roll of its own, so that
\* TLC need not evaluate each play once per roll
Spec == Init /\ [][GameNext]_gvars
S62 == <<1, -1, 0, 0, 1, -1>>
S73 == <<1, 0, -2, 0, 2, 0, -1>>
S83 == <<1, 0, -2, 0, 0, 2, 0, -1>>
=============================================================================
