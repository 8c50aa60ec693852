------------------------------- MODULE Dice -------------------------------
(***************************************************************************)
(* Fresh dice: two independent values from 1 to 6, whatever was rolled     *)
(* before.  Judged by counts over n consecutive rolls, each comparison at  *)
(* six standard deviations or more.                                        *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
Sides == 1..6
Abs(x) == IF x < 0 THEN -x ELSE x
Root(x) == LET RECURSIVE Go(_, _)
               Go(lo, hi) == IF hi - lo <= 1 THEN lo
                             ELSE LET m == (lo + hi) \div 2 IN IF m * m <= x THEN Go(m, hi) ELSE Go(lo, m)
           IN Go(0, 46341)
\* every one of the 36 outcomes as often as the others
Even(count, n) == \A i, j \in Sides : Abs(36 * count[i][j] - n) <= 36 * (6 * Root(n \div 36 + 1) + 6)
\* pairs of numbers, one of a roll and one of a later roll: all 36 alike
Unrelated(table, n) == \A i, j \in Sides : Abs(36 * table[i][j] - n) <= 36 * (6 * Root(n \div 36 + 1) + 6)
\* how many rolls repeat the roll so many places before
Repeats(same, n) == Abs(36 * same - n) <= 36 * (6 * Root(n \div 36 + 1) + 6)
(* Rolls in k stretches of w rolls: x is the sum over stretches and outcomes of *)
(* 36 * (times the outcome came up in the stretch)^2, less w * w.  It is 35 * w *)
(* a stretch when no roll knows of another; less when outcomes take turns, more *)
(* when they come in bunches.                                                   *)
Scattered(x, w, k) == Abs(x \div w - 35 * k) <= 7 * Root(70 * k) + 20
=============================================================================
