------------------------------- MODULE TraceBg -------------------------------
(***************************************************************************)
(* Does the implementation's backgammon follow the specification?          *)
(*                                                                         *)
(* A trace is a file with one JSON record per line, either                 *)
(*  - a position with what the implementation does in it ("pos"),          *)
(*  - a whole game, step by step ({start, ev}), or                         *)
(*  - dice counts.                                                         *)
(* The state is <<c, l, m>>: chunk, record, step.  Every position and      *)
(* every step of every game is one state of the trace specification, in    *)
(* which the invariants compare the recorded outcome with the one the      *)
(* Backgammon module prescribes.                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

VARIABLES c, l, m, pos, player, roll, second
BG == INSTANCE Backgammon WITH N <- 24, H <- 6, NC <- 15, DIE <- 6
D  == INSTANCE Dice

Trace == ndJsonDeserialize(IOEnv.TRACE)
CH    == 64                              \* chunks, explored in parallel
Idx   == c + (l - 1) * CH
R     == Trace[Idx]
Has(f) == l > 0 /\ f \in DOMAIN R

IsGame == Has("ev")
\* the state a game's step m starts from, and the event itself
Before == IF m = 1 THEN R.start ELSE R.ev[m - 1].st
Ev     == R.ev[m]
InGame == IsGame /\ m > 0

B(st)  == [pts |-> st.pts, bar |-> st.bar, off |-> st.off]
T(st)  == [p |-> st.p, d |-> st.d, s |-> st.s]

Settle == /\ pos' = 0 /\ player' = 0 /\ roll' = 0 /\ second' = FALSE
Init == /\ c \in 1..CH /\ l = 0 /\ m = 0
        /\ pos = 0 /\ player = 0 /\ roll = 0 /\ second = FALSE
NextRecord == /\ c + l * CH <= Len(Trace)
              /\ IsGame => m = Len(R.ev)
              /\ l' = l + 1 /\ m' = 0 /\ UNCHANGED c /\ Settle
NextStep   == /\ IsGame /\ m < Len(R.ev)
              /\ m' = m + 1 /\ UNCHANGED <<c, l>> /\ Settle
Next == NextRecord \/ NextStep
Spec == Init /\ [][Next]_<<c, l, m>>

\* a sequence of steps that PlayTo can take at all
Sane(q) == \A i \in 1..Len(q) : q[i][1] \in -1..23 /\ q[i][2] \in -1..23 /\ q[i] # <<-1, -1>>
LegalPlay(st, q) == Sane(q) /\ BG!Legal(B(st), st.p, st.d, q)

(***************************************************************************)
(* C01: every play offered is legal                                        *)
(***************************************************************************)
C01 == /\ Has("plays") => R.ok /\ \A i \in 1..Len(R.plays) : LegalPlay(R, R.plays[i])
       /\ Has("swapped") => \A i \in 1..Len(R.swapped) : LegalPlay(R, R.swapped[i])

(***************************************************************************)
(* C02: exactly the fullest outcomes, each once, whatever the dice order   *)
(***************************************************************************)
Reach(st, ps) == { BG!PlayTo(B(st), st.p, ps[i]) : i \in {j \in 1..Len(ps) : Sane(ps[j])} }
C02 == Has("swapped") =>
    LET want == BG!Outcomes(B(R), R.p, R.d)
        got  == Reach(R, R.plays)
    IN  /\ R.ok
        /\ got = want
        /\ Cardinality(got) = Len(R.plays)
        /\ Reach(R, R.swapped) = want
        /\ Len(R.swapped) = Len(R.plays)

(***************************************************************************)
(* C03: plays and passes change the position as prescribed                 *)
(***************************************************************************)
C03pos == Has("after") =>
    /\ \A i \in 1..Len(R.after) :
         LET a == R.after[i] IN
         LegalPlay(R, a.q) =>
            LET to == BG!PlayTo(B(R), R.p, a.q) IN
            a.ok /\ B(a.st) = to /\ B(a.alone) = to /\ BG!ValidPos(B(a.st))
    /\ R.pass.ok /\ B(R.pass.st) = B(R)
C03game == InGame =>
    /\ Ev.k = "pass" => Ev.ok /\ B(Ev.st) = B(Before)
    /\ (Ev.k = "play" /\ LegalPlay(Before, Ev.q)) =>
          Ev.ok /\ B(Ev.st) = BG!PlayTo(B(Before), Before.p, Ev.q)
    /\ BG!ValidPos(B(Before)) => BG!ValidPos(B(Ev.st))

(***************************************************************************)
(* C04: turns and dice                                                     *)
(***************************************************************************)
TurnOK(before, k, after) ==
    /\ after.d[1] \in 1..6 /\ after.d[2] \in 1..6
    /\ T(after) = IF k = "pass" THEN BG!TurnAfterPass(T(before), after.d)
                  ELSE BG!TurnAfterPlay(T(before), after.d)
C04pos == Has("after") =>
    /\ \A i \in 1..Len(R.after) : R.after[i].ok => TurnOK(R, "play", R.after[i].st)
    /\ R.pass.ok => TurnOK(R, "pass", R.pass.st)
C04game == InGame => (Ev.ok => TurnOK(Before, Ev.k, Ev.st))
C04dice == Has("count") =>
    /\ R.bad = 0
    /\ D!Even(R.count, R.n)
    /\ \A k \in 1..Len(R.later) : LET x == R.later[k] IN
         D!Repeats(x.same, x.n) /\ \A t \in 1..4 : D!Unrelated(x.tables[t], x.n)
    /\ \A s \in 1..Len(R.stretches) : D!Scattered(R.stretches[s].x, R.stretches[s].w, R.stretches[s].k)

(***************************************************************************)
(* C05: action codes                                                       *)
(***************************************************************************)
C05 == Has("codes") =>
    /\ R.ok
    /\ \A i \in 1..Len(R.plays) :
         /\ R.codes[i] \in 0..(R.space - 1)
         /\ R.dec[i] = R.plays[i] /\ R.adec[i] = R.plays[i]
         /\ R.xdec[i] = R.plays[i] /\ R.ydec[i] = R.plays[i]
         /\ R.codes[i] = R.acodes[i]
    /\ Cardinality({R.codes[i] : i \in 1..Len(R.codes)}) = Len(R.plays)
    /\ R.empty \in 0..(R.space - 1) /\ R.empty = R.aempty /\ R.edec = <<>>
    /\ \A i \in 1..Len(R.codes) : R.codes[i] # R.empty

(***************************************************************************)
(* C06: the winner                                                         *)
(***************************************************************************)
WinOK(st, w) == LET x == BG!Winner(B(st)) IN
    /\ w[1] = x /\ w[2] = x
    /\ (w[3] = -1) = (st.off[1] = 15) /\ (w[4] = 1) = (st.off[2] = 15)
C06pos == (Has("win") /\ ~IsGame) =>
    /\ WinOK(R, R.win)
    /\ R.off[BG!K(R.p)] = 15 => R.nplays = 0
C06game == (InGame => WinOK(Ev.st, Ev.win)) /\ (IsGame => WinOK(R.start, R.start.win))

(***************************************************************************)
(* C07: the network's input                                                *)
(***************************************************************************)
C07 == Has("input") =>
    /\ R.input.shape = <<1, 6, 4, 6>>
    /\ R.input.declared = <<6, 24>>
    /\ R.input.planes = BG!NetInput(B(R), R.p, R.d, R.s)
=============================================================================
