----------------------------- MODULE TrainPass -----------------------------
(***************************************************************************)
(* One training pass: the list is shuffled and cut into batches of the     *)
(* configured size, the last one possibly smaller; every batch makes one   *)
(* step of the optimiser.                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
Range(s) == { s[i] : i \in 1..Len(s) }
Steps(n, b) == (n + b - 1) \div b
Size(n, b, k) == IF k < Steps(n, b) THEN b ELSE n - b * (k - 1)
\* step[i]: the step that used sample i
UsedOnce(n, b, step) == \A k \in 1..Steps(n, b) : Cardinality({ i \in 1..n : step[i] = k }) = Size(n, b, k)

CONSTANTS MaxN, MaxB
VARIABLES n, b, order, k, step, weight
vars == <<n, b, order, k, step, weight>>
Perms(m) == { f \in [1..m -> 1..m] : \A i, j \in 1..m : i # j => f[i] # f[j] }
Init == /\ n \in 1..MaxN /\ b \in 1..MaxB /\ order \in Perms(n) /\ k = 0
        /\ step = [i \in 1..n |-> 0] /\ weight = <<>>
Batch == /\ k * b < n
         /\ LET last == IF (k + 1) * b < n THEN (k + 1) * b ELSE n
                members == { order[i] : i \in (k * b + 1)..last }
            IN  /\ step' = [i \in 1..n |-> IF i \in members THEN (IF step[i] = 0 THEN k + 1 ELSE -1) ELSE step[i]]
                /\ weight' = Append(weight, Cardinality(members))
         /\ k' = k + 1 /\ UNCHANGED <<n, b, order>>
Next == Batch \/ (k * b >= n /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Done == k * b >= n
EachOnce == Done => /\ k = Steps(n, b) /\ \A i \in 1..n : step[i] \in 1..k
                    /\ UsedOnce(n, b, step)
Full == \A i \in 1..Len(weight) : weight[i] <= b /\ (i < Len(weight) => weight[i] = b)
Ends == <>Done
=============================================================================
