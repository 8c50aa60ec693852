------------------------------ MODULE TraceNet ------------------------------
(* Are the recorded lives of networks behaviours of the specification?     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES c, l, m, seen, mark
Net == INSTANCE Network WITH NETS <- {1}, POS <- {1}, WEIGHTS <- {0}, weights <- 0, known <- 0, last <- 0
Trace == ndJsonDeserialize(IOEnv.TRACE)
CH  == 64
Idx == c + (l - 1) * CH
R   == Trace[Idx]
In  == l > 0
E   == R.ev[m + 1]
Step == In /\ m < Len(R.ev)

\* what is known after a batch of answers
After(k, xs, out) ==
    [x \in DOMAIN k \cup { xs[i] : i \in 1..Len(xs) } |->
        LET at == { i \in 1..Len(xs) : xs[i] = x } IN
        IF x \in DOMAIN k THEN (IF at = {} THEN k[x] ELSE Net!Merge(k[x], out[CHOOSE i \in at : TRUE]))
        ELSE out[CHOOSE i \in at : TRUE]]

Init == c \in 1..CH /\ l = 0 /\ m = 0 /\ seen = <<>> /\ mark = <<>>
NextRecord == /\ c + l * CH <= Len(Trace)
              /\ In => m = Len(R.ev)
              /\ l' = l + 1 /\ m' = 0 /\ UNCHANGED c
              /\ LET X == Trace[c + l * CH] IN seen' = [n \in 1..X.nets |-> <<>>] /\ mark' = X.mark
NextStep == /\ Step /\ m' = m + 1 /\ UNCHANGED <<c, l>>
            /\ mark' = E.mark
            /\ seen' = CASE E.k = "ask"   -> IF E.ok THEN [seen EXCEPT ![E.net] = After(@, E.xs, E.out)] ELSE seen
                         [] E.k = "train" -> [seen EXCEPT ![E.net] = <<>>]
                         [] E.k = "copy"  -> [seen EXCEPT ![E.to] = seen[E.net]]
                         [] OTHER         -> seen
Next == NextRecord \/ NextStep
Spec == Init /\ [][Next]_<<c, l, m, seen, mark>>
View == <<c, l, m>>

Changed == CASE E.k = "train" -> {E.net} [] E.k = "copy" -> {E.to} [] OTHER -> {}
C28 == Step =>
    /\ E.ok
    /\ \A n \in 1..R.nets : n \notin Changed => E.mark[n] = mark[n]
    /\ E.k = "copy" => E.mark[E.to] = E.mark[E.net]
    /\ E.k = "ask" =>
         /\ Len(E.out) = Len(E.xs)
         /\ \A i \in 1..Len(E.out) : Net!Proper(E.out[i], R.size) /\ E.out[i].hv = (E.how # "policy")
         \* twice the same position in one batch, and whatever was answered before
         /\ LET k == After(seen[E.net], E.xs, E.out) IN \A i \in 1..Len(E.out) : Net!Agrees(E.out[i], k[E.xs[i]])
=============================================================================
