------------------------------- MODULE Search -------------------------------
(***************************************************************************)
(* Tree search as die-e does it: rollout search ("rollout") and            *)
(* network-guided search of one position ("single", "pick") or of several  *)
(* positions side by side ("batch").                                       *)
(*                                                                         *)
(* A forest is a sequence of nodes                                         *)
(*   [par, mi, ok, p, w, v, n, kids, un, vis, val, pri]                    *)
(* par: parent's index, 0 for a root; mi: which of the parent's n offered  *)
(* moves was played; p: side to move; w: result (2 = not finished);        *)
(* v: position's name, if the game has names; kids, un: children and moves *)
(* not tried yet; vis, val: visits and accumulated value in 1e-6;          *)
(* pri: prior in 1e-6 (-1: not a number); ok: the position is the one      *)
(* its move leads to.                                                      *)
(*                                                                         *)
(* One iteration is an event                                               *)
(*   [chg |-> <<[i, dv, dq, val, kids, un]...>>, new |-> <<nodes>>,        *)
(*    pol |-> <<[i, pol, s, ev]...>>, moved, repri]                        *)
(* MCSearch generates events from these definitions, TraceSearch reads the *)
(* implementation's; the predicates below say which events are iterations. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, LnTable

SeqSet(s) == { s[i] : i \in 1..Len(s) }
Abs(x)    == IF x < 0 THEN -x ELSE x
Max(S)    == CHOOSE x \in S : \A y \in S : y <= x
Sum(f, S) == LET RECURSIVE Go(_)
                 Go(T) == IF T = {} THEN 0 ELSE LET x == CHOOSE y \in T : TRUE IN f[x] + Go(T \ {x})
             IN Go(S)
SumSeq(s) == LET RECURSIVE Go(_)
                 Go(i) == IF i = 0 THEN 0 ELSE s[i] + Go(i - 1)
             IN Go(Len(s))

(***************************************************************************)
(* Fixed-point arithmetic (TLC's integers have 32 bits)                    *)
(***************************************************************************)
MulDiv(a, b, d) == (a \div d) * b + ((a % d) * b) \div d
ISqrt(x) == LET RECURSIVE Go(_, _)
                Go(lo, hi) == IF hi - lo <= 1 THEN lo
                              ELSE LET m == (lo + hi) \div 2 IN IF m * m <= x THEN Go(m, hi) ELSE Go(lo, m)
            IN Go(0, 46341)
Sqrt10(x) == LET r == ISqrt(x) IN IF r = 0 THEN 0 ELSE 10 * r + ((x - r * r) * 10) \div (2 * r)
\* square root of x/10000 in units of 1/10000
SqrtE4(x) == IF x <= 20000 THEN Sqrt10(x * 10000) \div 10
             ELSE IF x <= 20000000 THEN Sqrt10(x * 100) ELSE 10 * Sqrt10(x)

(***************************************************************************)
(* Forests                                                                 *)
(***************************************************************************)
IsNet(kind) == kind # "rollout"
RootOf(t, i) == LET RECURSIVE Go(_)
                    Go(j) == IF t[j].par = 0 THEN j ELSE Go(t[j].par) IN Go(i)
PathTo(t, i) == LET RECURSIVE Go(_)
                    Go(j) == IF j = 0 THEN {} ELSE {j} \cup Go(t[j].par) IN Go(i)
Sane(t)      == \A i \in 1..Len(t) : t[i].par \in 0..(i - 1)
Roots(t)     == { i \in 1..Len(t) : t[i].par = 0 }

(***************************************************************************)
(* C10: a faithful tree of the game                                        *)
(***************************************************************************)
NodeOK(t, i) ==
    LET x == t[i] IN
    /\ x.par # 0 =>
         /\ x.ok /\ x.mi \in 1..t[x.par].n
         /\ Cardinality({j \in 1..Len(t[x.par].kids) : t[x.par].kids[j] = i}) = 1
    /\ \A j \in 1..Len(x.kids) : x.kids[j] \in (i + 1)..Len(t) /\ t[x.kids[j]].par = i
    /\ Len(x.kids) + Len(x.un) = x.n
    /\ { t[x.kids[j]].mi : j \in 1..Len(x.kids) } \cup SeqSet(x.un) = 1..x.n
Faithful(t) == Sane(t) /\ \A i \in 1..Len(t) : NodeOK(t, i)

(***************************************************************************)
(* One iteration                                                           *)
(***************************************************************************)
\* the forest after an event
Apply(t, e) ==
    LET ch == { e.chg[j].i : j \in 1..Len(e.chg) }
        C(i) == e.chg[CHOOSE j \in 1..Len(e.chg) : e.chg[j].i = i]
    IN [ i \in 1..Len(t) |-> IF i \in ch THEN [t[i] EXCEPT !.vis = @ + C(i).dv, !.val = C(i).val, !.kids = C(i).kids, !.un = C(i).un] ELSE t[i] ] \o e.new

\* visits and value added, per node of the forest after the event
Added(t, e) ==
    [ i \in { e.chg[j].i : j \in 1..Len(e.chg) } \cup (Len(t) + 1)..(Len(t) + Len(e.new)) |->
        IF i > Len(t) THEN [dv |-> e.new[i - Len(t)].vis, dq |-> e.new[i - Len(t)].val]
        ELSE LET c == e.chg[CHOOSE j \in 1..Len(e.chg) : e.chg[j].i = i] IN [dv |-> c.dv, dq |-> c.dq] ]

\* the nodes of root r's tree that were visited; a is Added(t, e), u the forest after the event
Visited(u, a, r) == { i \in DOMAIN a : a[i].dv # 0 /\ RootOf(u, i) = r }

(***************************************************************************)
(* C11: exactly one path, one visit each                                   *)
(***************************************************************************)
OnePath(u, a, r) == LET D == Visited(u, a, r) IN
    /\ D # {}
    /\ D = PathTo(u, Max(D))
    /\ \A i \in D : a[i].dv = 1
Leaf(u, a, r) == Max(Visited(u, a, r))

\* visits = children's visits + iterations that ended here
Accounts(t) == \A i \in 1..Len(t) :
    t[i].vis >= SumSeq([j \in 1..Len(t[i].kids) |-> t[t[i].kids[j]].vis])

(***************************************************************************)
(* C12: what is credited                                                   *)
(***************************************************************************)
One == 1000000
Sign(t, r, i) == IF t[i].p = t[r].p THEN 1 ELSE -1
\* possible results of playouts from position v of a named game within `limit` turns
Results(G, v, limit) ==
    LET RECURSIVE Go(_, _, _)
        Go(S, l, acc) ==
            IF S = {} THEN acc
            ELSE IF l = 0 THEN acc \cup {0}
            ELSE LET open == { x \in S : G[x].w = 2 }
                     succ(x) == IF Len(G[x].to) = 0 THEN {G[x].pass} ELSE SeqSet(G[x].to)
                 IN Go(UNION { succ(x) : x \in open }, l - 1, acc \cup { G[x].w : x \in S \ open })
    IN Go({v}, limit, {})

Close(x, y, tol) == x - tol <= y /\ y <= x + tol
\* what single precision may lose when a small number is added to a large one
Loss(x) == Abs(x.val) \div 8000000
\* G = <<>> when the game's positions have no names
CreditOK(kind, u, e, a, r, limit, G) ==
    LET D == Visited(u, a, r)
        L == Max(D)
        x == a[L].dq
        P == { j \in 1..Len(e.pol) : e.pol[j].i = L }
    IN  /\ \A i \in D : Close(a[i].dq, x, 20 + Loss(u[i]) + Loss(u[L]))
        /\ IF u[L].w # 2 THEN Close(x, One * u[L].w * u[r].p, 5 + Loss(u[L]))
           ELSE IF ~IsNet(kind) THEN
                \E z \in IF Len(G) > 0 THEN { One * q * u[r].p : q \in Results(G, u[L].v, limit) } ELSE {-One, 0, One} :
                    Close(x, z, 5 + Loss(u[L]))
           ELSE P # {} /\ \A j \in P : Close(x, Sign(u, r, L) * e.pol[j].ev, 150 + Loss(u[L]))
\* nothing else gains or loses value
NoOtherValue(u, a) == \A i \in DOMAIN a : a[i].dv = 0 => Close(a[i].dq, 0, 5)

\* what a whole search has credited: a finished position its result at every visit, an inner one what its
\* children got and, for each visit that ended at it, something between a loss and a win
Ledger(t) ==
  /\ \A i \in 1..Len(t) : t[i].vis \in 0..2000 /\ t[i].val \in -(2001 * One)..(2001 * One)
  /\ \A i \in 1..Len(t) : LET b == t[i].vis * One + 200000 IN -b <= t[i].val /\ t[i].val <= b
  /\ \A i \in 1..Len(t) :
    LET x    == t[i]
        own  == x.vis - SumSeq([j \in 1..Len(x.kids) |-> t[x.kids[j]].vis])
        kept == x.val - SumSeq([j \in 1..Len(x.kids) |-> t[x.kids[j]].val])
        lost == 20 + x.vis * (1 + Abs(x.val) \div 16000000)
    IN  IF x.w # 2 THEN x.kids = <<>> => Close(x.val, x.w * t[RootOf(t, i)].p * x.vis * One, 5)
        ELSE own >= 0 => LET b == own * One + lost IN -b <= kept /\ kept <= b

(***************************************************************************)
(* C13: descent                                                            *)
(***************************************************************************)
Mean(x) == IF x.vis = 0 THEN 0 ELSE x.val \div (100 * x.vis)
Bonus(kind, c, par, x) ==
    IF IsNet(kind)
    THEN LET A == (c * SqrtE4(par.vis * 10000)) \div (100 * (1 + x.vis))
         IN MulDiv(A, x.pri \div 100, 10000) + MulDiv(A, x.pri % 100, 1000000)
    ELSE SqrtE4((c * LnE4[par.vis]) \div (100 * x.vis))
Score(kind, c, t, r, k) ==
    LET par == t[t[k].par] IN
    Sign(t, r, t[k].par) * Mean(t[k]) + Bonus(kind, c, par, t[k])
TOL == 20                     \* 0.002
Stops(kind, x) == x.kids = <<>> \/ (~IsNet(kind) /\ x.un # <<>>)
Scorable(kind, t, i) == \A k \in SeqSet(t[i].kids) : IF IsNet(kind) THEN t[k].pri \in 0..(2 * One) ELSE t[k].vis > 0
BestKids(kind, c, t, r, i) ==
    LET s  == [k \in SeqSet(t[i].kids) |-> Score(kind, c, t, r, k)]
        mx == Max({s[k] : k \in DOMAIN s})
    IN { k \in DOMAIN s : s[k] + TOL >= mx }
\* t, u: forests before and after
DescentOK(kind, c, t, u, a, r) ==
    LET D   == Visited(u, a, r)
        old == { i \in D : i <= Len(t) }
        L   == Max(old)
    IN  /\ old # {}
        /\ Stops(kind, t[L])
        /\ \A i \in old \ {L} :
             /\ ~Stops(kind, t[i])
             /\ Scorable(kind, t, i) => \E k \in BestKids(kind, c, t, r, i) : k \in old
        \* the rollout search tries one new move where it stops, if there is one
        /\ ~IsNet(kind) => IF t[L].un # <<>> /\ t[L].w = 2 THEN Max(D) > Len(t) ELSE Max(D) = L

(***************************************************************************)
(* C16: priors.  pol: the network's policy for the offered moves relative  *)
(* to the largest of them, s: their sum, raw, in 1e-6                      *)
(***************************************************************************)
Share(pol, i) == LET S == SumSeq(pol) IN (pol[i] * 1000) \div (S \div 1000)
Weighty(q) == Len(q.pol) > 0 /\ SumSeq(q.pol) >= 1000000
Prior(t, i, j) == LET K == { k \in SeqSet(t[i].kids) : t[k].mi = j } IN IF K = {} THEN -1 ELSE t[CHOOSE k \in K : TRUE].pri
Distribution(t, i) ==
    /\ \A k \in SeqSet(t[i].kids) : t[k].pri \in 0..(2 * One)
    /\ Close(SumSeq([j \in 1..Len(t[i].kids) |-> t[t[i].kids[j]].pri]), One, 300)
PlainPriors(t, i, q) == (t[i].kids # <<>> /\ Weighty(q)) =>
    /\ Distribution(t, i)
    /\ Len(q.pol) = t[i].n
    /\ \A j \in 1..t[i].n : LET x == Share(q.pol, j) IN Close(Prior(t, i, j), x, 100 + x \div 200)
\* at a root, with noise share eps (1e-6): prior = (1-eps) * share + eps * noise, the noise a distribution;
\* in a batch the noise is spread over all action codes before the legal ones are picked
NoisyPriors(kind, t, i, q, eps) == (t[i].kids # <<>> /\ Weighty(q)) =>
    /\ Distribution(t, i)
    /\ Len(q.pol) = t[i].n
    /\ LET keep == One - eps IN
       IF kind = "batch" THEN
          LET Z == MulDiv(keep \div 100, q.s \div 100, 10000) + eps \div 100 IN          \* 1e-4, at most one
          \A j \in 1..t[i].n :
             LET raw == MulDiv(q.s \div 100, Share(q.pol, j) \div 100, 10000)             \* 1e-4
             IN  MulDiv(Z, Prior(t, i, j) \div 100, 10000) + 3 + raw \div 100 >= MulDiv(keep \div 100, raw, 10000) 
       ELSE t[i].n >= 2 =>
          \A j \in 1..t[i].n : LET x == MulDiv(keep \div 100, Share(q.pol, j) \div 10, 10000) * 10
                               IN Prior(t, i, j) + 300 + x \div 100 >= x

(***************************************************************************)
(* C15: results                                                            *)
(***************************************************************************)
VisOf(t, r, j) == LET K == { k \in SeqSet(t[r].kids) : t[k].mi = j } IN IF K = {} THEN 0 ELSE t[CHOOSE k \in K : TRUE].vis
RowOK(t, r, row) ==
    LET tot == SumSeq([j \in 1..Len(t[r].kids) |-> t[t[r].kids[j]].vis]) IN
    t[r].n > 0 =>
      /\ Len(row.pr) = t[r].n /\ Close(row.rest, 0, 2)
      /\ tot > 0 => \A j \in 1..t[r].n : Close(row.pr[j], (VisOf(t, r, j) * One) \div tot, 20)
MostVisited(t, r) == { j \in 1..t[r].n : \A k \in 1..t[r].n : VisOf(t, r, k) <= VisOf(t, r, j) }
=============================================================================
