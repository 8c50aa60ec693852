------------------------------ MODULE Network ------------------------------
(***************************************************************************)
(* A network is a function from positions to answers: a policy over the    *)
(* game's codes and a value.  Asking, searching, playing and saving leave  *)
(* the function as it is, training and loading replace it.                 *)
(*                                                                         *)
(* `known` remembers what each network has answered since it last changed. *)
(* An answer is [p, size, tot, neg, hv, v]: some entries of the policy in  *)
(* 1e-6, the number of its entries, their sum, whether any is below zero;  *)
(* whether there was a value (asking for the policy alone gives none) and  *)
(* the value.                                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
Million == 1000000
Dist(x)  == IF x < 0 THEN -x ELSE x
Within(x, y, tol) == Dist(x - y) <= tol
TOLER == 300

\* a single answer makes sense
Proper(a, size) == /\ a.size = size /\ ~a.neg /\ Within(a.tot, Million, 200)
                   /\ \A j \in 1..Len(a.p) : a.p[j] \in 0..(Million + 10)
                   /\ a.hv => a.v \in -Million..Million
Agrees(a, b) == /\ Len(a.p) = Len(b.p) /\ \A j \in 1..Len(a.p) : Within(a.p[j], b.p[j], TOLER)
                /\ (a.hv /\ b.hv) => Within(a.v, b.v, TOLER)
\* what is known of a position after another answer
Merge(a, b) == IF a.hv THEN a ELSE b

(***************************************************************************)
(* The transition system: networks NETS over positions POS.  A network is  *)
(* known by its weights, F(w) is the function they make.                   *)
(***************************************************************************)
CONSTANTS NETS, POS, WEIGHTS
VARIABLES weights, known, last
Share(w, x) == ((w * 7 + x * 3) % 5) * 200000
Worth(w, x) == (w * x) % 3
F(w, x) == [p |-> <<Share(w, x), Million - Share(w, x)>>, size |-> 2, tot |-> Million, neg |-> FALSE, hv |-> TRUE, v |-> (Worth(w, x) - 1) * Million]
vars == <<weights, known, last>>
Init == weights \in [NETS -> WEIGHTS] /\ known = [n \in NETS |-> <<>>] /\ last = <<>>
Learn(k, x, a) == [y \in DOMAIN k \cup {x} |-> IF y \in DOMAIN k THEN Merge(k[y], IF y = x THEN a ELSE k[y]) ELSE a]
Ask(n) == \E xs \in {<<x>> : x \in POS} \cup {<<x, y>> : x, y \in POS}, full \in BOOLEAN :
    LET out == [i \in 1..Len(xs) |-> [F(weights[n], xs[i]) EXCEPT !.hv = full]] IN
    /\ last' = [net |-> n, xs |-> xs, out |-> out]
    /\ known' = [known EXCEPT ![n] = IF Len(xs) = 1 THEN Learn(@, xs[1], out[1]) ELSE Learn(Learn(@, xs[1], out[1]), xs[2], out[2])]
    /\ UNCHANGED weights
Use(n)   == UNCHANGED vars
Train(n) == \E w \in WEIGHTS : weights' = [weights EXCEPT ![n] = w] /\ known' = [known EXCEPT ![n] = <<>>] /\ last' = <<>>
Copy(n, k) == weights' = [weights EXCEPT ![k] = weights[n]] /\ known' = [known EXCEPT ![k] = known[n]] /\ last' = <<>>
Next == \E n \in NETS : Ask(n) \/ Use(n) \/ Train(n) \/ \E k \in NETS : Copy(n, k)
Spec == Init /\ [][Next]_vars

\* C28
OneFunction == \A n \in NETS : \A x \in DOMAIN known[n] : Agrees(known[n][x], F(weights[n], x)) /\ Proper(known[n][x], 2)
Answered == last # <<>> => \A i \in 1..Len(last.xs) : Agrees(last.out[i], known[last.net][last.xs[i]])
SameWeightsSameAnswers == \A n, k \in NETS : weights[n] = weights[k] =>
    \A x \in DOMAIN known[n] \cap DOMAIN known[k] : Agrees(known[n][x], known[k][x])
OnlyTrainingAndLoadingChange == [][weights' # weights => last' = <<>>]_vars
=============================================================================
