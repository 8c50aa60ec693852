----------------------------- MODULE TraceShown ------------------------------
(* Is what is printed what the specification prints?                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES c, l
S == INSTANCE Shown WITH MEN <- 1, x <- 0, y <- 0
Trace == ndJsonDeserialize(IOEnv.TRACE)
CH  == 64
Idx == c + (l - 1) * CH
R   == Trace[Idx]
In  == l > 0
Init == c \in 1..CH /\ l = 0
Next == c + l * CH <= Len(Trace) /\ l' = l + 1 /\ UNCHANGED c
Spec == Init /\ [][Next]_<<c, l>>
View == <<c, l>>

\* lines of strokes and empty lines say nothing
Says(line) == ~(Len(line) = 1 /\ line[1] \in {"", "STROKES"})
Text(t) == SelectSeq(t, Says)
Want == IF R.k = "bg" THEN S!Board(R) ELSE S!Ttt(R.b)
C32 == In => IF "replay" \in DOMAIN R THEN R.replay.ok /\ Text(R.replay.text) = S!Header(R.replay) \o Want
             ELSE Text(R.text) = Want
=============================================================================
