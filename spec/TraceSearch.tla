---------------------------- MODULE TraceSearch ----------------------------
(***************************************************************************)
(* Are the implementation's searches searches of the specification?        *)
(* One record = one search; state <<c, l, m>> is record c+(l-1)*CH after   *)
(* m iterations, `tree` the forest the implementation had built by then.   *)
(***************************************************************************)
EXTENDS Search, TLC, Json, IOUtils
VARIABLES c, l, m, tree

Trace == ndJsonDeserialize(IOEnv.TRACE)
CH    == 64
Idx   == c + (l - 1) * CH
R     == Trace[Idx]
In    == l > 0 /\ "ev" \in DOMAIN R
E     == R.ev[m + 1]
Step  == In /\ m < Len(R.ev)
Last  == In /\ m = Len(R.ev)
Kind  == R.k
\* a search that was cut short by a failure has fewer events; a finished root has none
Started == Len(R.init) > 0

Init == c \in 1..CH /\ l = 0 /\ m = 0 /\ tree = <<>>
NextRecord == /\ c + l * CH <= Len(Trace)
              /\ In => m = Len(R.ev)
              /\ l' = l + 1 /\ m' = 0 /\ UNCHANGED c
              /\ tree' = LET X == Trace[c + l * CH] IN IF "init" \in DOMAIN X THEN X.init ELSE <<>>
NextStep == /\ Step /\ m' = m + 1 /\ UNCHANGED <<c, l>>
            /\ tree' = Apply(tree, E)
Next == NextRecord \/ NextStep
Spec == Init /\ [][Next]_<<c, l, m, tree>>
View == <<c, l, m>>

Good == Sane(tree)
\* (evaluated once per use: TLC would otherwise recompute the functions at every application)
U == TLCEval(Apply(tree, E))
A == TLCEval(Added(tree, E))
G == IF "graph" \in DOMAIN R THEN R.graph ELSE <<>>

(***************************************************************************)
C09 == In =>
    /\ R.fin.ok
    /\ (Last /\ R.done) => R.fin.mi = -1
    /\ (Last /\ ~R.done) =>
         CASE Kind \in {"rollout", "pick"} -> IF R.offers[1] = 0 THEN R.fin.mi = -1 ELSE R.fin.mi \in 1..R.offers[1]
           [] Kind = "single" -> IF R.offers[1] = 0 THEN R.fin.mi = -1
                                 ELSE /\ Len(R.fin.rows) = 1
                                      /\ Len(R.fin.rows[1].pr) = R.offers[1]
                                      /\ \E j \in 1..R.offers[1] : R.fin.rows[1].pr[j] \in 1..One
                                      /\ Close(R.fin.rows[1].rest, 0, 2)
           [] Kind = "batch"  -> /\ Len(R.fin.rows) = R.roots
                                 /\ \A i \in 1..R.roots : LET w == R.fin.rows[i] IN
                                      IF R.offers[i] = 0 THEN tree[i].kids = <<>>
                                      ELSE (\E j \in 1..R.offers[i] : w.pr[j] \in 1..One) /\ Close(w.rest, 0, 2)

C10 == In => /\ Faithful(tree)
             /\ Started => \A i \in 1..R.roots : R.rootok[i]
             /\ Started => Roots(tree) = 1..R.roots
             /\ Step => E.moved = 0

C11 == In =>
    /\ (Good /\ Step) => LET u == U a == A IN Sane(u) =>
         /\ \A r \in Roots(tree) : OnePath(u, a, r)
         /\ \A i \in DOMAIN a : i \in 1..Len(u)
    /\ Good => Accounts(tree)
    /\ (Good /\ m = 0 /\ Started /\ ~R.final) => \A i \in 1..Len(tree) : tree[i].vis = 0 \/ (IsNet(Kind) /\ tree[i].par = 0 /\ tree[i].vis = 1)
    /\ (Last /\ R.fin.ok /\ Started) => R.steps = R.iters /\ (R.final \/ Len(R.ev) = R.iters)
    /\ (Last /\ R.fin.ok /\ Started /\ Good) => \A r \in 1..R.roots : tree[r].vis - R.iters \in IF IsNet(Kind) THEN {0, 1} ELSE {0}
    /\ (In /\ R.fin.ok /\ ~R.done) => Started

\* the rest looks only at iterations that have a path at all
Shaped(u, a, r) == LET D == Visited(u, a, r) IN D # {} /\ D = PathTo(u, Max(D))
Ready == Step /\ Good /\ Sane(U)

C12 == /\ Ready => LET u == U a == A e == E g == G IN
                   /\ \A r \in Roots(tree) : Shaped(u, a, r) => CreditOK(Kind, u, e, a, r, R.limit, g)
                   /\ NoOtherValue(u, a)
       /\ (In /\ m = 0 /\ ~R.final) => \A i \in 1..Len(tree) : tree[i].val = 0
       /\ (Last /\ R.final /\ R.fin.ok /\ Good) => LET t == tree IN Ledger(t)

C13 == Ready => LET u == U a == A IN \A r \in Roots(tree) : Shaped(u, a, r) => DescentOK(Kind, R.c, tree, u, a, r)

C14 == (In /\ Kind = "batch" /\ R.fin.ok) =>
    /\ R.fin.nroots = R.roots /\ Roots(tree) = 1..R.roots
    /\ \A i \in 1..R.roots : R.rootok[i]
    /\ Last => Len(R.ev) = R.iters
    /\ Good => \A i \in 1..Len(tree) : tree[i].ok
    /\ Ready => LET u == U a == A e == E IN \A r \in 1..R.roots : OnePath(u, a, r) /\ CreditOK(Kind, u, e, a, r, R.limit, G)
    /\ (Ready /\ Sane(tree)) => LET u == U e == E IN \A j \in 1..Len(e.pol) : PlainPriors(u, e.pol[j].i, e.pol[j])
    /\ (Last /\ Good /\ "use" \notin DOMAIN R) => \A i \in 1..R.roots : RowOK(tree, i, R.fin.rows[i])

C15 == (Last /\ Good /\ R.fin.ok /\ Started) =>
    CASE Kind = "rollout" -> (tree[1].n > 0 => R.fin.mi \in MostVisited(tree, 1))
      [] Kind = "pick"    -> (tree[1].n > 0 => R.fin.mi \in 1..tree[1].n /\ VisOf(tree, 1, R.fin.mi) > 0)
      [] Kind = "single"  -> (tree[1].n > 0 => Len(R.fin.rows) = 1 /\ RowOK(tree, 1, R.fin.rows[1]))
      [] Kind = "batch"   -> \A i \in 1..R.roots : RowOK(tree, i, R.fin.rows[i])

C16 == /\ (In /\ IsNet(Kind) /\ m = 0 /\ Good) => \A j \in 1..Len(R.pol0) : LET q == R.pol0[j] IN
            IF R.eps = 0 THEN PlainPriors(tree, q.i, q) ELSE NoisyPriors(Kind, tree, q.i, q, R.eps)
       /\ (Ready /\ IsNet(Kind)) =>
            /\ E.repri = 0
            /\ LET u == U e == E IN \A j \in 1..Len(e.pol) : PlainPriors(u, e.pol[j].i, e.pol[j])

(***************************************************************************)
(* Aggregates: noise shares at roots where every code is offered (so that  *)
(* single and batch search mix alike), and playout results                 *)
(***************************************************************************)
Noise(h, j, eps) ==      \* of the j-th child, in 1/1000
    LET keep == MulDiv((One - eps) \div 100, Share(h.pol, h.mi[j]) \div 10, 10000) * 10
    IN  ((h.pri[j] - keep) * 10) \div (eps \div 100)
\* mean and variance of the sum of squared shares of K parts, concentration a / 100; 1e-4 and 1e-8
Part(a, K, i, j) == ((a + 100 * i) * 10000) \div (a * K + 100 * j)
ConcMean(a, K) == Part(a, K, 1, 1)
ConcVar(a, K) ==
    LET r == Part(a, K, 1, 1)
        same == (((r * Part(a, K, 2, 2)) \div 10000) * Part(a, K, 3, 3)) \div 10000
        other == (K - 1) * ((((r * Part(a, K, 0, 2)) \div 10000) * Part(a, K, 1, 3)) \div 10000)
    IN (same + other) * 10000 - r * r
C16noise == (l > 0 /\ "noise" \in DOMAIN R) =>
    /\ \A i \in 1..Len(R.heads) : LET h == R.heads[i] IN
         /\ h.ok /\ Len(h.pri) = Len(h.pol) /\ SeqSet(h.mi) = 1..Len(h.pol)
         /\ Close(SumSeq(h.pri), One, 300)
         /\ \A j \in 1..Len(h.pri) : Noise(h, j, R.eps) >= -(3 + 500 \div (R.eps \div 1000))
    \* sparse noise (alpha = 0.05) leaves some child of nearly every root without any
    /\ (R.alpha = 5 /\ Len(R.heads[1].pol) >= 10) => 10 * Cardinality({ i \in 1..Len(R.heads) : \E j \in 1..Len(R.heads[i].pri) : Noise(R.heads[i], j, R.eps) <= 3 + 500 \div (R.eps \div 1000) }) >= 8 * Len(R.heads)
    \* it is drawn afresh for every root and favours nobody: every move is the one with the most noise about equally often
    /\ LET n == Len(R.heads)
           K == Len(R.heads[1].pol)
           Top(h) == CHOOSE j \in 1..K : \A k \in 1..K : Noise(h, k, R.eps) <= Noise(h, j, R.eps)
           top == TLCEval([i \in 1..n |-> Top(R.heads[i])])
       IN K <= 12 => \A j \in 1..K : LET d == K * Cardinality({ i \in 1..n : top[i] = j }) - n IN d * d <= 36 * n * K + 200
    \* and as concentrated as configured: the sum of the squared shares has the mean it has for a Dirichlet distribution
    /\ LET n == Len(R.heads)
           K == Len(R.heads[1].pol)
           Sq(h) == SumSeq([j \in 1..K |-> Noise(h, j, R.eps) * Noise(h, j, R.eps)]) \div 100     \* 1e-4
           mean == SumSeq([i \in 1..n |-> Sq(R.heads[i])]) \div n
           M == ConcMean(R.alpha, K)
       IN IF K <= 12 THEN Close(mean, M, 6 * ISqrt(ConcVar(R.alpha, K) \div n) + 100 + 6000000 \div R.eps)
          ELSE Close(mean, M, M \div 4 + 60)

\* chances (1e-6) of each result of uniformly random playouts
Chances(Gr, v, limit) ==
    LET RECURSIVE Go(_, _)
        Go(x, n) ==
           IF n = 0 THEN <<0, One, 0>>
           ELSE IF Gr[x].w # 2 THEN [j \in 1..3 |-> IF j = Gr[x].w + 2 THEN One ELSE 0]
           ELSE IF Len(Gr[x].to) = 0 THEN Go(Gr[x].pass, n - 1)
           ELSE LET q == [i \in 1..Len(Gr[x].to) |-> Go(Gr[x].to[i], n - 1)]
                IN [j \in 1..3 |-> SumSeq([i \in 1..Len(q) |-> q[i][j]]) \div Len(q)]
    IN Go(v, limit)
C12playouts == (l > 0 /\ "playouts" \in DOMAIN R) =>
    /\ R.bad = 0
    /\ LET ch == Chances(R.graph, R.from, R.limit) IN
       \A j \in 1..3 : Close(R.playouts[j], MulDiv(ch[j] \div 100, R.runs, 10000), 1 + R.runs \div 12)
                       /\ (ch[j] = 0 => R.playouts[j] = 0)
=============================================================================
