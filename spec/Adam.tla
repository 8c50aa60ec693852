-------------------------------- MODULE Adam --------------------------------
(***************************************************************************)
(* A training step: the derivative of the loss                             *)
(*    mean cross entropy of targets and policy                             *)
(*  + mean square of value minus outcome                                   *)
(*  + half the weight decay times the squares of the weights               *)
(* for an output bias, and where the optimiser (Adam, 0.9, 0.999) takes a  *)
(* weight that has seen such derivatives.                                  *)
(*                                                                         *)
(* Policies, targets and weights in 1e-6, values in 1e-4, decay in 1e-3;   *)
(* derivatives in 1e-6; moves in thousandths of the learning rate.         *)
(***************************************************************************)
EXTENDS Integers, Sequences
Abs(x) == IF x < 0 THEN -x ELSE x
Sign(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
\* integer division rounding toward zero
Div(x, y) == IF x < 0 THEN -((-x) \div y) ELSE x \div y
RECURSIVE SumP(_, _, _, _), SumV(_, _, _)
SumP(p, t, k, i) == IF i = 0 THEN 0 ELSE SumP(p, t, k, i - 1) + p[i][k] - t[i][k]
SumV(v, z, i) == IF i = 0 THEN 0 ELSE SumV(v, z, i - 1) + Div(2 * (v[i] - 10000 * z[i]) * (10000 - Div(v[i] * v[i], 10000)), 100)
Decay(wd, w) == Div(wd * Div(w, 10), 100)
PolicySlope(p, t, k, wd, w) == Div(SumP(p, t, k, Len(p)), Len(p)) + Decay(wd, w)
ValueSlope(v, z, wd, w) == Div(SumV(v, z, Len(v)), Len(v)) + Decay(wd, w)
ISqrt(x) == LET RECURSIVE Go(_, _)
                Go(lo, hi) == IF hi - lo <= 1 THEN lo
                              ELSE LET m == (lo + hi) \div 2 IN IF m * m <= x THEN Go(m, hi) ELSE Go(lo, m)
            IN Go(0, 46341)
MulDiv(a, b, d) == IF a < 0 THEN -((((-a) \div d) * b) + (((-a) % d) * b) \div d) ELSE (a \div d) * b + ((a % d) * b) \div d
\* the move after the slopes g[1..n] (n <= 120), in thousandths of the learning rate
\* mean of the slopes, each weighing nine tenths of the next
Mean(g) == LET RECURSIVE Fade(_, _)
               Fade(f, i) == IF i = 0 THEN 0 ELSE Div(9 * Fade(f, i - 1), 10) + f[i]
           IN  MulDiv(Fade(g, Len(g)), 10000, Fade([i \in 1..Len(g) |-> 10000], Len(g)))
\* small slopes are squared in 1e-6, others in 1e-4 or 1e-3
Scale(g) == LET Below(x) == \A i \in 1..Len(g) : Abs(g[i]) < x
                few == Len(g) <= 3
            IN  IF Below(IF few THEN 20000 ELSE 4000) THEN 1 ELSE IF Below(IF few THEN 1000000 ELSE 400000) THEN 100 ELSE 1000
\* root of the mean of the squares, each weighing 0.999 of the next
Norm(g) == LET s == Scale(g)
               n == Len(g)
               RECURSIVE Sq(_)
               Sq(i) == IF i = 0 THEN 0 ELSE LET b == Sq(i - 1) IN b - b \div 1000 + Div(g[i], s) * Div(g[i], s)
           IN  s * ISqrt(MulDiv(Sq(n), 1000, 1000 * n - (n * (n - 1)) \div 2))
Move(g) == IF Norm(g) = 0 THEN 0 ELSE IF Len(g) = 1 THEN -1000 * Sign(g[1]) ELSE -Div(1000 * Div(Mean(g), Scale(g)), Norm(g) \div Scale(g))

(***************************************************************************)
(* The transition system: two codes, one position, whole tenths.           *)
(***************************************************************************)
CONSTANTS STEPS
VARIABLES w, slopes, target, moved
vars == <<w, slopes, target, moved>>
Tenth == 100000
\* policy of a bias w: straight line, between 0 and 1
Policy(x) == LET y == 500000 + x IN IF y < 0 THEN 0 ELSE IF y > 1000000 THEN 1000000 ELSE y
Init == w \in {-4 * Tenth, 0, 3 * Tenth} /\ slopes = <<>> /\ target \in {0, 4 * Tenth, 1000000} /\ moved = <<>>
Step == /\ Len(slopes) < STEPS
        /\ LET g == Append(slopes, PolicySlope(<<<<Policy(w)>>>>, <<<<target>>>>, 1, 0, w)) IN
           /\ slopes' = g /\ moved' = Append(moved, Move(g))
           /\ w' = w + 100 * Move(g)              \* learning rate 0.1
        /\ UNCHANGED target
Next == Step
Spec == Init /\ [][Next]_vars
\* a step moves no further than a little more than the learning rate; the first exactly by it
Bounded == \A i \in 1..Len(moved) : Abs(moved[i]) <= 1800
FirstIsWhole == Len(moved) >= 1 => moved[1] = -1000 * Sign(slopes[1])
\* the first step makes the policy closer to the target, or crosses it by less than the learning rate
Closer == Len(moved) = 1 => Abs(Policy(w) - target) <= LET d == Abs(slopes[1]) IN IF d > Tenth THEN d ELSE Tenth
=============================================================================
