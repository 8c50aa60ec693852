------------------------------ MODULE TraceAdam ------------------------------
(* Are the recorded training steps those of the specification?             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES c, l, m
A == INSTANCE Adam WITH STEPS <- 0, w <- 0, slopes <- <<>>, target <- 0, moved <- <<>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
CH  == 64
Idx == c + (l - 1) * CH
R   == Trace[Idx]
In  == l > 0
Init == c \in 1..CH /\ l = 0 /\ m = 0
NextRecord == c + l * CH <= Len(Trace) /\ (In => m = Len(R.ev)) /\ l' = l + 1 /\ m' = 0 /\ UNCHANGED c
NextStep == In /\ m < Len(R.ev) /\ m' = m + 1 /\ UNCHANGED <<c, l>>
Next == NextRecord \/ NextStep
Spec == Init /\ [][Next]_<<c, l, m>>
View == <<c, l, m>>

CODES == 7
Slopes(k)  == [i \in 1..m |-> A!PolicySlope(R.ev[i].p, R.ev[i].t, k, R.wd, R.ev[i].pb[k])]
VSlopes    == [i \in 1..m |-> A!ValueSlope(R.ev[i].v, R.ev[i].z, R.wd, R.ev[i].vb)]
\* rounding: what the numbers in the record leave open is not judged
Clear(g, least) == \E i \in 1..Len(g) : A!Abs(g[i]) >= least * (IF Len(g) = 1 THEN 1 ELSE 20)
Near(got, want) == A!Abs(got - want) <= IF m = 1 THEN 15 ELSE 40
\* a pass is the steps of its batches, one after the other
OnePass == \E w \in 1..Len(R.pass.ways) : \A k \in 1..Len(R.pass.whole) : A!Abs(R.pass.whole[k] - R.pass.ways[w][k]) <= 40
C33 == In => /\ R.ok
             /\ (R.k = "pass" => OnePass)
             /\ (m > 0 /\ (m <= 30 \/ m = Len(R.ev) \/ m % 16 = 0)) => /\ \A k \in 1..CODES : LET g == Slopes(k) IN Clear(g, 60) => Near(R.ev[m].dp[k], A!Move(g))
                         /\ LET g == VSlopes IN Clear(g, 600) => Near(R.ev[m].dv, A!Move(g))
=============================================================================
