------------------------------ MODULE Commands ------------------------------
(***************************************************************************)
(* The command line.  The state is the folder die-e runs in: files, known  *)
(* by their paths (sequences of names), and folders.  A command either     *)
(* does its whole work or is refused and leaves everything as it was.      *)
(*                                                                         *)
(* A file is [kind, game, w, who]: kind "model" (of a game, w stands for   *)
(* its weights), "set" (a data set, w is its number of samples, its path   *)
(* is the folder of the self-play iteration), "game" (a saved game, who    *)
(* are its agents), "other".                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
AGENTS == {"random", "mcts", "model"}
GAMES_OF_A_MATCH == 400
Best(g)     == <<"models", g, "best_model.ot">>
Iter(g, i)  == <<"models", g, "model_" \o ToString(i) \o ".ot">>
SetOf(g, run, i, j) == <<"data", g, run, "lrn-" \o ToString(i), "sp-" \o ToString(j)>>
Front(p) == SubSeq(p, 1, Len(p) - 1)
Under(p, d) == Len(p) >= Len(d) /\ SubSeq(p, 1, Len(d)) = d

IsModel(F, p, g) == p \in DOMAIN F /\ F[p].kind = "model" /\ F[p].game = g
\* the model a command begins with: the given one, the best one, or a new one (<<>>)
Source(F, e) == IF e.model # <<>> THEN e.model ELSE IF Best(e.game) \in DOMAIN F THEN Best(e.game) ELSE <<>>
SourceReadable(F, e) == LET s == Source(F, e) IN s = <<>> \/ IsModel(F, s, e.game)
\* the folder of the data asked for; <<>> if the question makes no sense
Scope(e) == LET s == e.scope IN
    CASE s[1] = "" /\ s[2] = "" /\ s[3] = "" -> <<"data", e.game>>
      [] s[1] # "" /\ s[2] = "" /\ s[3] = "" -> <<"data", e.game, "run-" \o s[1]>>
      [] s[1] # "" /\ s[2] # "" /\ s[3] = "" -> <<"data", e.game, "run-" \o s[1], "lrn-" \o s[2]>>
      [] s[1] # "" /\ s[2] # "" /\ s[3] # "" -> <<"data", e.game, "run-" \o s[1], "lrn-" \o s[2], "sp-" \o s[3]>>
      [] OTHER -> <<>>
Refused(F, D, e) ==
    \/ ~e.conf \/ ~e.cpus \/ e.lacks
    \/ CASE e.cmd = "learn"  -> ~SourceReadable(F, e)
         [] e.cmd = "play"   -> \/ \E k \in 1..2 : \/ e.a[k] \notin AGENTS
                                                   \/ e.m[k] # <<>> /\ ~IsModel(F, e.m[k], e.game)
                                                   \/ e.a[k] = "model" /\ e.m[k] = <<>>
                                \/ e.out = <<>> \/ e.out \notin D
         [] e.cmd = "train"  -> \/ Scope(e) = <<>>
                                \/ Scope(e) \notin D /\ Scope(e) \notin DOMAIN F
                                \/ ~SourceReadable(F, e)
                                \/ Front(e.out) \notin D
         [] e.cmd = "replay" -> ~(e.file \in DOMAIN F /\ F[e.file].kind = "game" /\ F[e.file].game = e.game)

(***************************************************************************)
(* What a command that is not refused may write.  P maps the written paths *)
(* to their new content, N are the new folders.                            *)
(***************************************************************************)
LearnWrites(F, D, e, P, N) ==
    LET g == e.game
        runs == { p[3] : p \in { q \in DOMAIN P : Len(q) = 5 /\ q[1] = "data" } }
        src == Source(F, e)
    IN
    /\ Cardinality(runs) = 1
    /\ LET run == CHOOSE x \in runs : TRUE
           sets == { SetOf(g, run, i, j) : i \in 0..(e.l - 1), j \in 0..(e.s - 1) }
           mods == { Iter(g, i) : i \in 0..(e.l - 1) }
       IN
       /\ <<"data", g, run>> \notin D
       \* (a model that comes out as the file already is is not seen to be written)
       /\ sets \subseteq DOMAIN P /\ DOMAIN P \subseteq sets \cup mods \cup {Best(g)}
       /\ \A p \in mods : p \in DOMAIN P \/ p \in DOMAIN F
       /\ \A p \in sets : P[p].kind = "set" /\ P[p].w > 0
       /\ \A p \in DOMAIN P \ sets : P[p].kind = "model" /\ P[p].game = g
       /\ LET after(p) == IF p \in DOMAIN P THEN P[p] ELSE F[p] IN
          /\ \A p \in mods : IsModel(F, p, g) \/ p \in DOMAIN P
          \* without a learning rate the weights stay those it began with
          /\ e.lr0 => /\ \A p \in mods : src # <<>> => after(p).w = F[src].w
                      /\ \A p, q \in mods : after(p).w = after(q).w
          \* the best model is one of the new ones, or the old one where there was one
          /\ Best(g) \in DOMAIN P \cup DOMAIN F
          /\ Best(g) \in DOMAIN P => P[Best(g)].w \in { after(p).w : p \in mods }
       /\ \A d \in N : Under(<<"data", g, run>>, d) \/ Under(d, <<"data", g, run>>) \/ Under(<<"models", g>>, d)
PlayWrites(F, e, P, N) ==
    /\ Cardinality(DOMAIN P) = GAMES_OF_A_MATCH /\ N = {}
    /\ \A p \in DOMAIN P : /\ p \notin DOMAIN F /\ Front(p) = e.out
                           /\ P[p].kind = "game" /\ P[p].game = e.game /\ P[p].who = e.a
TrainWrites(F, e, P, N) ==
    LET src == Source(F, e) IN
    /\ N = {} /\ DOMAIN P \subseteq {e.out} /\ (e.out \in DOMAIN P \/ IsModel(F, e.out, e.game))
    /\ e.out \in DOMAIN P => P[e.out].kind = "model" /\ P[e.out].game = e.game
    /\ (e.lr0 /\ src # <<>>) => (IF e.out \in DOMAIN P THEN P[e.out].w ELSE F[e.out].w) = F[src].w
Writes(F, D, e, P, N) ==
    CASE e.cmd = "learn"  -> LearnWrites(F, D, e, P, N)
      [] e.cmd = "play"   -> PlayWrites(F, e, P, N)
      [] e.cmd = "train"  -> TrainWrites(F, e, P, N)
      [] e.cmd = "replay" -> P = <<>> /\ N = {}
After(F, P) == [p \in DOMAIN F \cup DOMAIN P |-> IF p \in DOMAIN P THEN P[p] ELSE F[p]]

(***************************************************************************)
(* The transition system, with short names: weights W, runs RUNS, a match  *)
(* leaves one game.                                                        *)
(***************************************************************************)
CONSTANTS GAMES, W, RUNS
VARIABLES files, dirs, did
vars == <<files, dirs, did>>
File(k, g, w, who) == [kind |-> k, game |-> g, w |-> w, who |-> who]
Init == /\ files = (<<"a.ot">> :> File("model", "ttt", 1, <<"", "">>)) @@ (<<"x.ot">> :> File("other", "", 0, <<"", "">>))
        /\ dirs = {<<>>, <<"out">>} /\ did = [cmd |-> "none"]
Maybe(S) == S \cup {<<>>}
Asked == { [cmd |-> "learn", game |-> g, model |-> m, l |-> 1, s |-> 1, lr0 |-> z] : g \in GAMES, m \in Maybe({<<"a.ot">>, <<"x.ot">>}), z \in BOOLEAN }
    \cup { [cmd |-> "train", game |-> g, model |-> m, scope |-> s, out |-> o, lr0 |-> z] : g \in GAMES, m \in Maybe({<<"a.ot">>, <<"x.ot">>}),
           s \in {<<"", "", "">>, <<"1", "", "">>, <<"", "0", "">>}, o \in {<<"a.ot">>, <<"no", "b.ot">>}, z \in BOOLEAN }
    \cup { [cmd |-> "play", game |-> g, a |-> <<x, y>>, m |-> <<m, <<>>>>, out |-> o] : g \in GAMES, x \in {"model", "random"}, y \in {"mcts", "human"}, m \in Maybe({<<"a.ot">>}), o \in {<<"out">>, <<"no">>} }
    \cup { [cmd |-> "replay", game |-> g, file |-> f] : g \in GAMES, f \in {<<"out", "1">>, <<"a.ot">>} }
All(e) == e @@ [conf |-> TRUE, cpus |-> TRUE, lacks |-> FALSE]
SourceWeights(e) == IF e.lr0 /\ Source(files, e) # <<>> THEN {files[Source(files, e)].w} ELSE W
Learn(e) == \E run \in {r \in RUNS : <<"data", e.game, r>> \notin dirs}, w \in SourceWeights(e), b \in BOOLEAN :
    LET new == File("model", e.game, w, <<"", "">>)
        P == (SetOf(e.game, run, 0, 0) :> File("set", "", 2, <<"", "">>)) @@ (Iter(e.game, 0) :> new)
             @@ (IF b \/ Best(e.game) \notin DOMAIN files THEN Best(e.game) :> new ELSE <<>>)
    IN  /\ files' = After(files, P)
        /\ dirs' = dirs \cup {<<"data">>, <<"data", e.game>>, <<"data", e.game, run>>, <<"data", e.game, run, "lrn-0">>, <<"models">>, <<"models", e.game>>}
        /\ did' = e @@ [put |-> P]
Train(e) == \E w \in SourceWeights(e) : LET P == e.out :> File("model", e.game, w, <<"", "">>) IN
    files' = After(files, P) /\ UNCHANGED dirs /\ did' = e @@ [put |-> P]
Play(e)  == \E k \in {"1", "2"} : LET P == Append(e.out, k) :> File("game", e.game, 0, e.a) IN
    Append(e.out, k) \notin DOMAIN files /\ files' = After(files, P) /\ UNCHANGED dirs /\ did' = e @@ [put |-> P]
Next == \E q \in Asked : LET e == All(q) IN
    IF Refused(files, dirs, e) THEN UNCHANGED <<files, dirs>> /\ did' = e @@ [put |-> <<>>]
    ELSE CASE e.cmd = "learn" -> Learn(e) [] e.cmd = "train" -> Train(e) [] e.cmd = "play" -> Play(e)
           [] e.cmd = "replay" -> UNCHANGED <<files, dirs>> /\ did' = e @@ [put |-> <<>>]
Spec == Init /\ [][Next]_vars

\* C30
TypesOk == \A p \in DOMAIN files : files[p].kind \in {"model", "set", "game", "other"}
\* what other games have is not touched, and nothing recorded is ever changed
Touched(e, p) == IF e.cmd = "train" THEN p = e.out ELSE e.cmd = "learn" /\ p[1] = "models" /\ p[2] = e.game
OwnFilesOnly == [][\A p \in DOMAIN files :
                     IF p \notin DOMAIN files' THEN FALSE
                     ELSE (files'[p] # files[p]) => (files[p].kind \notin {"set", "game"} /\ Touched(did', p))]_vars
RefusedLeavesNothing == [][(did'.cmd # "none" /\ Refused(files, dirs, did')) => (files' = files /\ dirs' = dirs)]_vars
\* the writing rules allow what the commands do (matches are shorter here)
RulesAgree == [][(did'.cmd \in {"learn", "train", "replay"} /\ ~Refused(files, dirs, did')) =>
                 Writes(files, dirs, did', did'.put, dirs' \ dirs)]_vars
\* after a learning run there is a best model, and every best model is a model of its game, or was overwritten as such
BestIsThere == \A g \in GAMES : Iter(g, 0) \in DOMAIN files => IsModel(files, Best(g), g)
=============================================================================
