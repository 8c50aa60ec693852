------------------------------- MODULE Shown --------------------------------
(***************************************************************************)
(* What is printed.  A backgammon position is printed as a drawing: the    *)
(* points 12..23 above, 11..0 below, a column of men on each point (x: the *)
(* first player's, o: the second player's), at most five of them drawn and *)
(* the number of further ones beyond; with the side to move, the dice, the *)
(* men on the bar and those borne off.  Lines are sequences of fields.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
Str(n) == ToString(n)
Abs(x) == IF x < 0 THEN -x ELSE x
Man(x) == IF x < 0 THEN "x" ELSE "o"
\* the field on level h (1 at the edge, 6 beyond the five drawn) of a point
Field(x, h) == IF Abs(x) < h THEN "" ELSE IF h = 6 THEN "+" \o Str(Abs(x) - 5) ELSE Man(x)
Row(f(_)) == <<"|">> \o [i \in 1..6 |-> f(i)] \o <<"|">> \o [i \in 1..6 |-> f(i + 6)] \o <<"|">>
Upper(st) == <<Row(LAMBDA i : Str(11 + i))>> \o [h \in 1..6 |-> Row(LAMBDA i : Field(st.pts[12 + i], h))]
Lower(st) == [k \in 1..6 |-> Row(LAMBDA i : Field(st.pts[13 - i], 7 - k))] \o <<Row(LAMBDA i : Str(12 - i))>>
Who(p) == IF p = -1 THEN "Player 1" ELSE "Player 2"
Info(st) == << <<"Current turn: " \o Who(st.p), "Roll: (" \o Str(st.d[1]) \o ", " \o Str(st.d[2]) \o ")">>,
               <<"Player 1:">>, <<"", "Broken Pieces: " \o Str(st.bar[1])>>, <<"", "Pieces Collected:" \o Str(st.off[1])>>,
               <<"Player 2:">>, <<"", "Broken Pieces: " \o Str(st.bar[2])>>, <<"", "Pieces Collected:" \o Str(st.off[2])>> >>
Drawing(st) == Upper(st) \o <<Row(LAMBDA i : "")>> \o Lower(st)
\* the printed lines, without the two lines of strokes around the drawing
Board(st) == Info(st) \o Drawing(st)
Ttt(b) == [r \in 1..3 |-> [i \in 1..3 |-> Str(b[3 * (r - 1) + i])]]
\* a saved game, shown from its identity on
Header(g) == << <<"Game ID: " \o g.id>>, <<"Player 1: " \o g.who[1] \o ", Player 2: " \o g.who[2]>>, <<"Game winner: " \o g.winner>>, <<"Initial State:">> >>

(***************************************************************************)
(* What is printed tells the position: reading a column back.              *)
(***************************************************************************)
CONSTANT MEN
VARIABLES x, y
Init == x \in -MEN..MEN /\ y \in -MEN..MEN
Next == UNCHANGED <<x, y>>
Spec == Init /\ [][Next]_<<x, y>>
Column(n) == [h \in 1..6 |-> Field(n, h)]
Readable == (Column(x) = Column(y)) => (x = y)
Pos(n, k) == [pts |-> [i \in 1..24 |-> IF i = k THEN n ELSE 0]]
Placed == \A k \in {1, 12, 13, 24}, j \in {1, 12, 13, 24} : (Drawing(Pos(x, k)) = Drawing(Pos(y, j))) => (x = y /\ (x = 0 \/ k = j))
=============================================================================
