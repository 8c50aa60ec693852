---------------------------- MODULE Backgammon ----------------------------
(***************************************************************************)
(* The game of backgammon as die-e plays it: position, legal plays, turn   *)
(* and dice protocol, end of game, action codes.                           *)
(*                                                                         *)
(* Written from the rules, not from the code: the legal plays are a set    *)
(* comprehension over die orders, whereas the implementation builds a tree *)
(* and prunes it.  The board size is a parameter, so that TLC can exhaust  *)
(* small boards (MCBackgammon) while the full board (24 points, 15         *)
(* checkers) is used to judge what the implementation does (TraceBg).      *)
(*                                                                         *)
(* Points are numbered 0..N-1.  Side -1 moves down and bears off below 0,  *)
(* side +1 moves up and bears off above N-1.  A step is <<from, to>>;      *)
(* from = -1 enters from the bar, to = -1 bears off.                       *)
(*                                                                         *)
(* Named deviation from tournament rules, because the project's own tests  *)
(* pin it (get_valid_moves::it_should_work_for_entry_move): when only one  *)
(* of two different dice can be used, but either could be, both choices    *)
(* are allowed (no "must use the higher die" rule).                        *)
(* Equal dice are played as two consecutive plays of two steps each.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS N,      \* number of points               (24)
          H,      \* points in a home quarter        (6)
          NC,     \* checkers per side               (15)
          DIE     \* faces of a die                  (6)

Side    == {-1, 1}
Faces   == 1..DIE
Points  == 0..(N-1)

\* index of a side in the <<.,.>> pairs
K(p)    == IF p = -1 THEN 1 ELSE 2

RECURSIVE SumSeq(_, _)
SumSeq(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumSeq(f, n - 1)

Pos(x)  == IF x > 0 THEN x ELSE 0

\* checkers of side p on the points
OnBoard(b, p)  == SumSeq([i \in 1..N |-> Pos(p * b.pts[i])], N)
Total(b, p)    == OnBoard(b, p) + b.bar[K(p)] + b.off[K(p)]

ValidPos(b) ==
    /\ \A p \in Side : Total(b, p) = NC
    /\ \A k \in {1, 2} : b.bar[k] >= 0 /\ b.off[k] >= 0

(***************************************************************************)
(* Single steps                                                            *)
(***************************************************************************)
HomeIdx(p)   == IF p = -1 THEN 1..H ELSE (N-H+1)..N        \* indices into pts
\* distance of point index i (1-based) to the edge p bears off over
Dist(p, i)   == IF p = -1 THEN i ELSE N + 1 - i

AllHome(b, p) ==
    /\ b.bar[K(p)] = 0
    /\ \A i \in (1..N) \ HomeIdx(p) : p * b.pts[i] <= 0

EntryPoint(p, m) == IF p = -1 THEN N - m ELSE m - 1

Farthest(b, p, i) ==       \* none of p's checkers stands farther out than i
    \A j \in 1..N : Dist(p, j) > Dist(p, i) => p * b.pts[j] <= 0

DieSteps(b, p, m) ==
    IF b.bar[K(p)] > 0
    THEN LET t == EntryPoint(p, m)
         IN  IF p * b.pts[t + 1] >= -1 THEN {<<-1, t>>} ELSE {}
    ELSE LET own == {i \in 1..N : p * b.pts[i] > 0}
         IN  { <<i - 1, i - 1 + p * m>> :
                 i \in {j \in own : /\ j + p * m >= 1 /\ j + p * m <= N
                                    /\ p * b.pts[j + p * m] >= -1} }
             \cup
             IF AllHome(b, p)
             THEN { <<i - 1, -1>> :
                      i \in {j \in own : \/ Dist(p, j) = m
                                         \/ Dist(p, j) < m /\ Farthest(b, p, j)} }
             ELSE {}

StepTo(b, p, s) ==
    LET k   == K(p)
        o   == 3 - k
        hit == s[2] # -1 /\ b.pts[s[2] + 1] = -p
        p1  == IF s[1] = -1 THEN b.pts ELSE [b.pts EXCEPT ![s[1] + 1] = @ - p]
        p2  == IF s[2] = -1 THEN p1
               ELSE [p1 EXCEPT ![s[2] + 1] = IF hit THEN p ELSE @ + p]
        br1 == IF s[1] = -1 THEN [b.bar EXCEPT ![k] = @ - 1] ELSE b.bar
    IN [pts |-> p2,
        bar |-> IF hit THEN [br1 EXCEPT ![o] = @ + 1] ELSE br1,
        off |-> IF s[2] = -1 THEN [b.off EXCEPT ![k] = @ + 1] ELSE b.off]

RECURSIVE PlayTo(_, _, _)
PlayTo(b, p, q) == IF q = <<>> THEN b
                   ELSE PlayTo(StepTo(b, p, Head(q)), p, Tail(q))

(***************************************************************************)
(* Plays                                                                   *)
(***************************************************************************)
TwoSteps(b, p, m1, m2) ==
    UNION { { <<s, t>> : t \in DieSteps(StepTo(b, p, s), p, m2) }
            : s \in DieSteps(b, p, m1) }

\* one play = at most two steps, one die each, using as many dice as possible
Plays(b, p, d) ==
    LET two == TwoSteps(b, p, d[1], d[2])
               \cup (IF d[1] = d[2] THEN {} ELSE TwoSteps(b, p, d[2], d[1]))
    IN  IF two # {} THEN two
        ELSE { <<s>> : s \in DieSteps(b, p, d[1]) \cup DieSteps(b, p, d[2]) }

\* the same plays without the "use as many dice as possible" clause
\* (each die order played until it is stuck): what a naive tree gives
LegalSteps(b, p, q, m1, m2) ==
    CASE Len(q) = 0 -> TRUE
      [] Len(q) = 1 -> q[1] \in DieSteps(b, p, m1)
      [] Len(q) = 2 -> /\ q[1] \in DieSteps(b, p, m1)
                       /\ q[2] \in DieSteps(StepTo(b, p, q[1]), p, m2)
      [] OTHER      -> FALSE

Legal(b, p, d, q) == /\ q # <<>>
                     /\ \/ LegalSteps(b, p, q, d[1], d[2])
                        \/ LegalSteps(b, p, q, d[2], d[1])

Outcomes(b, p, d) == { PlayTo(b, p, q) : q \in Plays(b, p, d) }

Winner(b) == IF b.off[1] = NC THEN -1 ELSE IF b.off[2] = NC THEN 1 ELSE 0

(***************************************************************************)
(* Action codes: <<which die goes first, origin of step 1, of step 2>>     *)
(***************************************************************************)
BAR    == N          \* origin "bar"
NONE   == N + 1      \* "there is no second step"
Base   == N + 2
EMPTYC == 2 * Base * Base - 1
CodeSpace == 0..EMPTYC

Hi(d) == IF d[1] > d[2] THEN d[1] ELSE d[2]
Lo(d) == IF d[1] > d[2] THEN d[2] ELSE d[1]
Orig(s) == IF s[1] = -1 THEN BAR ELSE s[1]

EncodeAs(q, hiFirst) ==
    IF q = <<>> THEN EMPTYC
    ELSE (IF hiFirst THEN 0 ELSE Base * Base) + Orig(q[1])
         + Base * (IF Len(q) = 1 THEN NONE ELSE Orig(q[2]))

\* the step side p makes from origin o with die m
StepFrom(p, o, m) ==
    IF o = BAR THEN <<-1, EntryPoint(p, m)>>
    ELSE <<o, IF o + p * m \in Points THEN o + p * m ELSE -1>>

Decode(p, d, c) ==
    IF c = EMPTYC THEN <<>>
    ELSE LET hf == c < Base * Base
             r  == IF hf THEN c ELSE c - Base * Base
             o1 == r % Base
             o2 == r \div Base
             m1 == IF hf THEN Hi(d) ELSE Lo(d)
             m2 == IF hf THEN Lo(d) ELSE Hi(d)
         IN  IF o2 = NONE THEN <<StepFrom(p, o1, m1)>>
             ELSE <<StepFrom(p, o1, m1), StepFrom(p, o2, m2)>>

\* a code for a play: whichever order decodes back to it
Codes(p, d, q) == { EncodeAs(q, hf) : hf \in {h \in BOOLEAN : Decode(p, d, EncodeAs(q, h)) = q} }

(***************************************************************************)
(* What the network is shown: one plane per component, cell by cell        *)
(***************************************************************************)
Const(v)      == [i \in 1..N |-> v]
Halves(v)     == [i \in 1..N |-> IF 2 * i <= N THEN v[1] ELSE v[2]]
NetInput(b, p, d, sec) ==
    << b.pts, Const(p), Halves(b.bar), Halves(b.off), Halves(d), Const(IF sec THEN 1 ELSE 0) >>

(***************************************************************************)
(* Turns.  A turn state is [p, d, s]: side to move, dice, second play of a *)
(* double.  dice is what the die shows if it is rolled.                    *)
(***************************************************************************)
Stays(t)            == t.d[1] = t.d[2] /\ ~t.s
TurnAfterPlay(t, dice) == IF Stays(t) THEN [p |-> t.p, d |-> t.d, s |-> TRUE]
                          ELSE [p |-> -t.p, d |-> dice, s |-> FALSE]
TurnAfterPass(t, dice) == [p |-> -t.p, d |-> dice, s |-> FALSE]

(***************************************************************************)
(* The game as a state machine                                             *)
(***************************************************************************)
VARIABLES pos, player, roll, second
gvars == <<pos, player, roll, second>>

Rolls == Faces \X Faces
Turn  == [p |-> player, d |-> roll, s |-> second]
SetTurn(t) == player' = t.p /\ roll' = t.d /\ second' = t.s

AfterPlay(q, dice) == pos' = PlayTo(pos, player, q) /\ SetTurn(TurnAfterPlay(Turn, dice))
AfterPass(dice)    == UNCHANGED pos /\ SetTurn(TurnAfterPass(Turn, dice))

Over == Winner(pos) # 0

Play  == ~Over /\ \E q \in Plays(pos, player, roll), dice \in Rolls : AfterPlay(q, dice)
Pass  == ~Over /\ Plays(pos, player, roll) = {} /\ \E dice \in Rolls : AfterPass(dice)

GameNext == Play \/ Pass

(***************************************************************************)
(* Properties of the design, checked exhaustively on small boards          *)
(***************************************************************************)
TypeOK == /\ pos.pts \in [1..N -> -NC..NC] /\ player \in Side
          /\ roll \in Rolls /\ second \in BOOLEAN
Conservation   == ValidPos(pos)
SecondIsDouble == second => roll[1] = roll[2]
OneWinner      == ~(pos.off[1] = NC /\ pos.off[2] = NC)
PlaysAreLegal  == \A q \in Plays(pos, player, roll) : Legal(pos, player, roll, q)
\* every legal play that is not offered uses fewer dice than those offered
PlaysAreFullest ==
    \A q \in Plays(pos, player, roll), s \in DieSteps(pos, player, roll[1]) \cup DieSteps(pos, player, roll[2]) :
        Len(q) = 1 => /\ \A t \in DieSteps(StepTo(pos, player, s), player, roll[2]) : s \notin DieSteps(pos, player, roll[1])
                      /\ \A t \in DieSteps(StepTo(pos, player, s), player, roll[1]) : s \notin DieSteps(pos, player, roll[2])
DiceOrderFree  == Plays(pos, player, roll) = Plays(pos, player, <<roll[2], roll[1]>>)
CodesUnique ==
    LET ps == Plays(pos, player, roll) IN
    /\ \A q \in ps : Codes(player, roll, q) # {} /\ Codes(player, roll, q) \subseteq (CodeSpace \ {EMPTYC})
    /\ \A q \in ps, r \in ps : q # r => Codes(player, roll, q) \cap Codes(player, roll, r) = {}
\* nothing but passing is left for a winner
WinnerIsDone == \A p \in Side, d \in Rolls : pos.off[K(p)] = NC => Plays(pos, p, d) = {}
\* the input shows everything: distinct (position, turn) pairs have distinct inputs
InputFaithful ==
    LET i == NetInput(pos, player, roll, second) IN
    /\ i[1] = pos.pts /\ i[2][1] = player /\ i[3][1] = pos.bar[1] /\ i[3][N] = pos.bar[2]
    /\ i[4][1] = pos.off[1] /\ i[4][N] = pos.off[2] /\ i[5][1] = roll[1] /\ i[5][N] = roll[2]
    /\ (i[6][1] = 1) = second
WinnerIsMover  == [][Winner(pos) = 0 /\ Winner(pos') # 0 => Winner(pos') = player]_gvars
\* pips of the mover strictly fall with every play
Pips(b, p) == SumSeq([i \in 1..N |-> Pos(p * b.pts[i]) * Dist(p, i)], N) + b.bar[K(p)] * (N + 1)
PipsFall == [][pos' # pos => Pips(pos', player) < Pips(pos, player)]_gvars
\* the side to move stays the same exactly for the second play of a double
DoubleProtocol ==
    [][player' = player => (second' /\ ~second /\ roll' = roll /\ roll[1] = roll[2] /\ pos' # pos)]_gvars
=============================================================================
