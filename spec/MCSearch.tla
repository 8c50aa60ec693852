------------------------------ MODULE MCSearch ------------------------------
(***************************************************************************)
(* The search as a transition system on small game graphs: every order in  *)
(* which ties may be broken and moves tried, every playout result and      *)
(* several networks.  All properties of the trace specification are        *)
(* checked on every iteration it can take, and what follows from them.     *)
(***************************************************************************)
EXTENDS Search, TLC
CONSTANTS Kinds, Iters, Cs, Limits
VARIABLES kind, g, cc, lim, nets, tree, prev, ev, k

\* small games: blocked sides, double turns, finished positions, draws, dead ends of passes
V(p, w, to, pass) == [p |-> p, w |-> w, to |-> to, pass |-> pass]
G1 == << V(-1, 2, <<2, 3>>, 2), V(1, 2, <<4, 5>>, 4), V(1, 2, <<>>, 6), V(-1, -1, <<>>, 4), V(-1, 1, <<>>, 5), V(-1, 2, <<4>>, 4) >>
G2 == << V(1, 2, <<2, 3, 4>>, 2), V(1, 2, <<5, 6>>, 5), V(-1, 2, <<6>>, 6), V(-1, 0, <<>>, 4), V(-1, 2, <<>>, 7), V(1, 1, <<>>, 6), V(1, 2, <<4>>, 4) >>
G3 == << V(1, 2, <<>>, 2), V(-1, 2, <<3>>, 3), V(1, -1, <<>>, 3) >>
Games == << G1, G2, G3 >>
G == Games[g]
\* networks: policies are uniform or lopsided, evaluations differ by position
Eval(v) == IF nets = 1 THEN IF v % 2 = 0 THEN 300000 ELSE -200000 ELSE IF v % 3 = 0 THEN -900000 ELSE 100000
Pri(n, j) == IF n = 1 THEN One ELSE IF nets = 1 THEN One \div n
             ELSE IF j = 1 THEN 800000 ELSE 200000 \div (n - 1)
PolOf(i, v) == LET n == Len(G[v].to) IN
    [i |-> i, pol |-> [j \in 1..n |-> IF nets = 1 \/ n = 1 \/ j = 1 THEN One ELSE 250000 \div (n - 1)], s |-> One, ev |-> Eval(v)]

Node(v, par, mi, pri) ==
    [par |-> par, mi |-> mi, ok |-> TRUE, p |-> G[v].p, w |-> G[v].w, v |-> v, n |-> Len(G[v].to),
     kids |-> <<>>, un |-> [j \in 1..Len(G[v].to) |-> j], vis |-> 0, val |-> 0, pri |-> pri]
Kids(v, i, at) == [j \in 1..Len(G[v].to) |-> Node(G[v].to[j], i, j, Pri(Len(G[v].to), j))]

\* leaves the descent may stop at
RECURSIVE Leaves(_, _, _)
Leaves(t, r, i) == IF Stops(kind, t[i]) THEN {i} ELSE UNION { Leaves(t, r, x) : x \in BestKids(kind, cc, t, r, i) }

RemoveAt(s, j) == SubSeq(s, 1, j - 1) \o SubSeq(s, j + 1, Len(s))
Chg(t, i, val, kids, un) == [i |-> i, dv |-> 1, dq |-> val, val |-> t[i].val + val, kids |-> kids, un |-> un]
\* the event of visiting leaf L of root r, creating `new`, crediting val; `base` nodes exist already in this event
Ev(t, L, val, new, kids, un, pol) ==
    LET P == PathTo(t, L)
        RECURSIVE Lst(_)
        Lst(S) == IF S = {} THEN <<>> ELSE LET i == Max(S) IN Append(Lst(S \ {i}), IF i = L THEN Chg(t, i, val, kids, un) ELSE Chg(t, i, val, t[i].kids, t[i].un))
    IN [chg |-> Lst(P), new |-> new, pol |-> pol, moved |-> 0, repri |-> 0]

Moves(t, r) == UNION { 
    LET x == t[L] IN
    IF x.w # 2 THEN { Ev(t, L, One * x.w * t[r].p, <<>>, x.kids, x.un, <<>>) }
    ELSE IF kind = "rollout" THEN
        IF x.un = <<>> THEN { Ev(t, L, One * z * t[r].p, <<>>, x.kids, x.un, <<>>) : z \in Results(G, x.v, lim) }
        ELSE UNION { LET nd == Node(G[x.v].to[x.un[j]], L, x.un[j], 0) IN
               { Ev(t, L, One * z * t[r].p, << [nd EXCEPT !.vis = 1, !.val = One * z * t[r].p] >>,
                    Append(x.kids, Len(t) + 1), RemoveAt(x.un, j), <<>>) : z \in Results(G, nd.v, lim) } : j \in 1..Len(x.un) }
    ELSE { Ev(t, L, Sign(t, r, L) * Eval(x.v), Kids(x.v, L, Len(t)), [j \in 1..Len(x.un) |-> Len(t) + j], <<>>, << PolOf(L, x.v) >>) }
    : L \in Leaves(t, r, r) }

Both(a, b) == [chg |-> a.chg \o b.chg, new |-> a.new \o b.new, pol |-> a.pol \o b.pol, moved |-> 0, repri |-> 0]

RootNode(v) == [Node(v, 0, 0, 0) EXCEPT !.vis = IF kind = "rollout" THEN 0 ELSE 1]
Expanded(v, i, at) == [RootNode(v) EXCEPT !.kids = [j \in 1..Len(G[v].to) |-> at + j], !.un = <<>>]
Forest == IF kind = "rollout" THEN << RootNode(1) >>
          ELSE IF kind = "single" THEN << Expanded(1, 1, 1) >> \o Kids(1, 1, 1)
          ELSE << Expanded(1, 1, 2), Expanded(2, 2, 2 + Len(G[1].to)) >> \o Kids(1, 1, 2) \o Kids(2, 2, 2)

NoEv == [chg |-> <<>>, new |-> <<>>, pol |-> <<>>, moved |-> 0, repri |-> 0]
Init == /\ kind \in Kinds /\ g \in 1..3 /\ cc \in Cs /\ lim \in Limits /\ nets \in 1..2
        /\ (kind = "rollout" => nets = 1) /\ (kind # "rollout" => lim = CHOOSE x \in Limits : TRUE)
        /\ k = 0 /\ ev = NoEv
        /\ tree = Forest /\ prev = tree
Iterate == /\ k < Iters /\ k' = k + 1 /\ prev' = tree
           /\ \E e1 \in Moves(tree, 1) :
                IF kind # "batch" THEN ev' = e1 ELSE \E e2 \in Moves(Apply(tree, e1), 2) : ev' = Both(e1, e2)
           /\ tree' = Apply(tree, ev')
           /\ UNCHANGED <<kind, g, cc, lim, nets>>
Done == k = Iters /\ UNCHANGED <<kind, g, cc, lim, nets, tree, prev, ev, k>>
Next == Iterate \/ Done
Spec == Init /\ [][Next]_<<kind, g, cc, lim, nets, tree, prev, ev, k>>

\* the specification has its own properties
A == Added(prev, ev)
Tree == Faithful(tree)
Path == k > 0 => \A r \in Roots(tree) : OnePath(tree, A, r)
Credit == k > 0 => (\A r \in Roots(tree) : CreditOK(kind, tree, ev, A, r, lim, IF kind = "rollout" THEN G ELSE <<>>)) /\ NoOtherValue(tree, A)
Descent == k > 0 => \A r \in Roots(tree) : DescentOK(kind, cc, prev, tree, A, r)
Priors == k > 0 => \A j \in 1..Len(ev.pol) : PlainPriors(tree, ev.pol[j].i, ev.pol[j])
\* and what follows: accounts balance, values are bounded, the i-th tree holds k iterations
Balance == /\ Accounts(tree)
           /\ \A i \in 1..Len(tree) : Abs(tree[i].val) <= One * tree[i].vis
           /\ \A r \in Roots(tree) : tree[r].vis = k + IF kind = "rollout" THEN 0 ELSE 1
\* a root with moves ends with a visited one: the search can always answer (no deadlock: it never gets stuck)
Answers == k = Iters => \A r \in Roots(tree) : tree[r].n > 0 => \E j \in MostVisited(tree, r) : VisOf(tree, r, j) > 0
=============================================================================
