------------------------------- MODULE Files -------------------------------
(***************************************************************************)
(* What is kept in files: data sets (one per self-play iteration, three    *)
(* parallel lists), models, games; which data sets the train command uses. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Range(s) == { s[i] : i \in 1..Len(s) }

(***************************************************************************)
(* Data sets: a sample is <<outcome, target, position>>                    *)
(***************************************************************************)
Unzip(d) == [outcomes |-> [i \in 1..Len(d) |-> d[i][1]], targets |-> [i \in 1..Len(d) |-> d[i][2]], positions |-> [i \in 1..Len(d) |-> d[i][3]]]
Zip(f)   == [i \in 1..Len(f.outcomes) |-> <<f.outcomes[i], f.targets[i], f.positions[i]>>]

(***************************************************************************)
(* Scopes: ANY or a name for run, learning and self-play iteration; a      *)
(* narrower part needs the wider ones.                                     *)
(***************************************************************************)
ANY == ""
WellFormed(ask) == /\ ask[2] # ANY => ask[1] # ANY
                   /\ ask[3] # ANY => ask[2] # ANY
Fits(want, is) == want = ANY \/ want = is
InScope(ask, d) == Fits(ask[1], d[1]) /\ Fits(ask[2], d[2]) /\ Fits(ask[3], d[3])
Scope(tree, ask) == { d \in tree : InScope(ask, d) }
Exists(tree, ask) == Scope(tree, ask) # {}

(***************************************************************************)
(* The files as a state machine                                            *)
(***************************************************************************)
CONSTANTS Dirs, Samples, Paths, Nets, Folders, GameIds
VARIABLES data, models, games, seen
vars == <<data, models, games, seen>>
ABSENT == 0          \* no file, or one that cannot be read: networks are numbered from 1
Init == /\ data = [d \in Dirs |-> <<>>] /\ models = [p \in Paths |-> ABSENT]
        /\ games = [f \in Folders |-> {}] /\ seen = <<"none">>

SaveData(d, s) == data' = [data EXCEPT ![d] = s] /\ seen' = <<"saved">> /\ UNCHANGED <<models, games>>
LoadData(d)    == data[d] # <<>> /\ seen' = <<"data", d, data[d]>> /\ UNCHANGED <<data, models, games>>
SaveModel(p, n) == models' = [models EXCEPT ![p] = n] /\ seen' = <<"saved">> /\ UNCHANGED <<data, games>>
Spoil(p)       == models' = [models EXCEPT ![p] = ABSENT] /\ seen' = <<"spoilt">> /\ UNCHANGED <<data, games>>
LoadModel(p)   == seen' = <<"model", p, models[p]>> /\ UNCHANGED <<data, models, games>>
\* a game is <<identity, contents>>; saving it again replaces it
WithGame(gs, g) == { x \in gs : x[1] # g[1] } \cup {g}
SaveGame(f, g) == games' = [games EXCEPT ![f] = WithGame(@, g)] /\ seen' = <<"saved">> /\ UNCHANGED <<data, models>>
LoadGames(f)   == seen' = <<"games", f, games[f]>> /\ UNCHANGED <<data, models, games>>
Next == \/ \E d \in Dirs, n \in 1..2 : \E s \in [1..n -> Samples] : SaveData(d, s)
        \/ \E d \in Dirs : LoadData(d)
        \/ \E p \in Paths : Spoil(p) \/ LoadModel(p) \/ \E n \in Nets : SaveModel(p, n)
        \/ \E f \in Folders : LoadGames(f) \/ \E i \in GameIds, x \in 1..2 : SaveGame(f, <<i, x>>)
Spec == Init /\ [][Next]_vars

\* three lists are as good as the samples; each game is there once; saving one thing changes no other
Lossless == \A d \in Dirs : Zip(Unzip(data[d])) = data[d]
OneEach  == \A f \in Folders : \A x, y \in games[f] : x[1] = y[1] => x = y
Separate == [][ /\ Cardinality({ d \in Dirs : data'[d] # data[d] }) + Cardinality({ p \in Paths : models'[p] # models[p] })
                   + Cardinality({ f \in Folders : games'[f] # games[f] }) <= 1
                /\ seen'[1] \in {"data", "model", "games"} => UNCHANGED <<data, models, games>> ]_vars

(***************************************************************************)
(* Scopes, over all small trees                                            *)
(***************************************************************************)
Names == {"a", "b"}
AllSets == Names \X Names \X Names
Asks == { k \in (Names \cup {ANY}) \X (Names \cup {ANY}) \X (Names \cup {ANY}) : WellFormed(k) }
ASSUME \A tree \in SUBSET AllSets :
          /\ Scope(tree, <<ANY, ANY, ANY>>) = tree
          /\ \A k \in Asks : Scope(tree, k) \subseteq tree
          \* the scopes of one level split the level above
          /\ \A r \in Names : Scope(tree, <<r, ANY, ANY>>) = UNION { Scope(tree, <<r, x, ANY>>) : x \in Names }
          /\ \A r, x \in Names : Scope(tree, <<r, x, ANY>>) = UNION { Scope(tree, <<r, x, y>>) : y \in Names }
          /\ \A d \in AllSets : Scope(tree, d) = tree \cap {d}
=============================================================================
