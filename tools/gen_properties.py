#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the texts stay readable)."""
import json, os
BG="src/backgammon/backgammon_logic.rs"; ENC="src/backgammon/encoding.rs"; TT="src/tictactoe/mod.rs"
SM="src/mcts/simple_mcts.rs"; AM="src/mcts/alpha_mcts.rs"; ND="src/mcts/node.rs"; NS="src/mcts/node_store.rs"
UT="src/mcts/utils.rs"; NO="src/mcts/noise.rs"; AZ="src/alphazero/alphazero.rs"; AP="src/alphazero/alpha_parallel.rs"
AN="src/alphazero/alpha_no_parallel.rs"; AV="src/alphazero/alpha_versus.rs"; NN="src/alphazero/nnet.rs"; VS="src/versus.rs"; MN="src/main.rs"; BS="src/base.rs"
P=[]
def p(id,title,st,over,q,why,files,mech,state=(),obs=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=hook)))

p("C01","Every backgammon play offered is legal",
 "For every backgammon position, side to move and pair of dice, each play the game offers is legal: every step moves one of the mover's own checkers forward by exactly one die not used before in that play, onto a point not held by two or more opposing checkers, and while the mover has checkers on the bar only entering moves are made. A checker is borne off only when all the mover's remaining checkers are in the home quarter, with a die that matches its distance exactly or with a larger die when none of the mover's checkers stands farther from the edge.",
 ["inputs","histories"],"all positions with 15 checkers a side (reachable by play or not), both sides, all 36 rolls, first and second play of a double",
 "The tests check about thirty hand-made boards, most with one side's checkers only; the position space has more than 10^20 members, and interactions (bar + blocked point + bearing off past opposing checkers in the home quarter) are not sampled.",
 [BG],[("get_valid_moves / _get_action_trees / get_normal_moves / get_entry_moves / is_collectible",BG)],
 [("board","24 signed point counts, bar counts, borne-off counts",BG),("roll","the two dice",BG)],["get_valid_moves() on a position built from its public fields"])
p("C02","Exactly the fullest legal backgammon plays are offered, each outcome once",
 "For every backgammon position and pair of dice, the set of positions that the offered plays lead to is exactly the set reachable by legal plays that use as many of the two dice as can be used (when both dice can only be used singly, either may be chosen). Each such resulting position is offered by exactly one play, nothing is offered exactly when no die can be played, and swapping the two dice does not change what is offered.",
 ["inputs","histories"],"all positions with 15 checkers a side, both sides, all 36 rolls",
 "The tests list the whole result for four positions only, all nearly empty; missing or duplicated outcomes in other positions are invisible to them.",
 [BG],[("action tree construction, sequence extraction, duplicate-state removal",BG)],
 [("board","position",BG)],["get_valid_moves()"])
p("C03","Playing a backgammon play gives the prescribed position; no checker is lost",
 "Playing an offered play changes the position exactly as the rules prescribe: moved checkers leave their origin and stand on their destination, a lone opposing checker on a destination goes to the bar, entering checkers leave the bar, borne-off checkers are counted as such, and nothing else changes. In every position reached by any sequence of plays and passes each side has exactly 15 checkers over points, bar and borne off, and no count is negative; passing leaves the position as it was.",
 ["histories","inputs"],"all sequences of offered plays, passes and dice from the starting position, and one play from any valid position",
 "The tests apply a dozen hand-written moves to hand-made boards, one or two moves deep; conservation over whole games is never checked.",
 [BG],[("get_next_state, apply_move, skip_turn",BG)],[("board","position",BG)],["public board field after apply_move / skip_turn"])
p("C04","Turns and dice follow the protocol; doubles give exactly two plays",
 "After a play with unequal dice, and after any pass, the turn goes to the other side with freshly rolled dice. After the first play with equal dice the same side plays once more with the same dice, and after that second play the turn goes over with fresh dice. Fresh dice are two independent values from 1 to 6, each of the 36 outcomes being equally likely.",
 ["histories","inputs"],"all sequences of plays and passes with any dice",
 "No test looks at the side to move, the second-play flag or the dice after a play, and the dice are random.",
 [BG],[("apply_move, skip_turn, roll_die",BG)],[("roll, player, is_second_play","turn state",BG)],["public fields after apply_move / skip_turn / roll_die"])
p("C05","Action codes are in range, unique and decode to the same move",
 "In every backgammon position with rolled dice, every offered play, and the empty play, has an action code inside the network's action range; different offered plays have different codes, and decoding a code in the same position gives back exactly the play it was made from. The stand-alone encoder and decoder and the ones used by search and training agree; in tic-tac-toe the code of a move is its cell.",
 ["inputs","histories"],"all positions, both sides, all 36 rolls, all offered plays",
 "46 hand-written cases on an empty board, all through the stand-alone encoder; the encoder that search and training use is never called by a test.",
 [BG,ENC,TT],[("encode / decode (two implementations)",BG+", "+ENC)],[("roll","dice the code refers to",BG)],["encode(), decode()"])
p("C06","A backgammon win is reported exactly when a side has borne off all 15",
 "At every point of every backgammon game a winner is reported exactly when one side has borne off all 15 of its checkers, and the reported winner is that side; a game that nobody has won reports none, and once won no further play is offered to the winner.",
 ["histories","inputs"],"all positions and all sequences of plays",
 "Two boards are tested: the starting one and one on which both sides have won.",
 [BG],[("check_winner, check_win, check_win_without_player",BG)],[("board.2","borne-off counts",BG)],["check_winner(), check_win()"])
p("C07","The network input shows the whole position",
 "For every position the network input has the fixed shape declared for the game and shows the position exactly: for backgammon the 24 signed point counts, the side to move, both bar counts, both borne-off counts, both dice and whether it is the second play of a double; for tic-tac-toe which cells hold the first side, are empty, or hold the second side. Two positions that differ in any of these have different inputs.",
 ["inputs"],"all positions of both games",
 "No test touches the network input.",
 [BG,TT],[("as_tensor",BG+", "+TT)],[],["as_tensor()"])
p("C08","Tic-tac-toe follows its rules in every reachable position",
 "From either starting side, in every reachable tic-tac-toe position the moves offered are exactly the empty cells, playing one puts the mover's mark there and nothing else and hands over the turn, and the result reported is the side with three in a row, a draw when the board is full without one, and otherwise none.",
 ["histories","inputs"],"every position reachable from both starting sides (the complete game graph), every move",
 "The tests look at five boards.",
 [TT],[("get_valid_moves, apply_move, skip_turn, check_winner",TT)],[("board, player","position",TT)],["trait methods"])
p("C09","Search always answers, with an offered move, or a pass only when there is none",
 "For every unfinished position of either game, including ones in which the side to move has no legal play and ones where the game ends within the search, and for every positive search budget, rollout search and network-guided search (single position or batch) finish without failing. The move chosen from them, at any temperature, is one the position offers, and they pass exactly when the position offers none. Asked about one finished game, rollout search and single-position search pass.",
 ["inputs","histories","configurations"],"all unfinished positions, blocked positions, near-finished positions; all budgets and exploration constants",
 "No test runs a search.",
 [SM,AM,ND,UT,AZ],[("mct_search, alpha_mcts, alpha_mcts_parallel, get_next_move_for_state",SM+", "+AM)],[],["return values; the built tree"],"search_step hook (tree after each iteration)")
p("C10","The search tree is always a faithful tree of the game",
 "At every moment of a search every node other than a root is the position obtained by playing its recorded move in its parent's position, that move was offered there, its parent lists it as a child exactly once, and no two children of a node share a move. For every node the moves already tried and the moves still to be tried together are exactly the offered moves.",
 ["histories","inputs"],"all positions, budgets and games in a batch; after every iteration",
 "No test builds a tree by searching.",
 [ND,NS,SM,AM],[("expand, alpha_expand, alpha_expand_tensor, add_node, set_node",ND+", "+NS)],[("nodes","search tree",NS)],["tree after each iteration"],"search_step hook")
p("C11","Each search iteration adds one visit along exactly one path",
 "Each search iteration of a position adds exactly one visit to the node it evaluates and to each of that node's ancestors up to the root, and to no other node; iterations are exactly as many as configured. A node's visits therefore always equal the visits of its children plus the iterations that ended at the node itself (a network-guided root may count one more, for its initial expansion).",
 ["histories","configurations"],"all positions, budgets, exploration constants; every iteration",
 "No test runs a search.",
 [SM,AM],[("backpropagate, search loops",SM+", "+AM)],[("visits","visit counts",ND)],["tree after each iteration"],"search_step hook")
p("C12","Search values credit the real result, from the searching side's viewpoint",
 "Each search iteration credits the same value to every node on its path: +1, -1 or 0 when the evaluated position is finished (win, loss or draw of the side the search is made for); the result, on the same scale, of a random playout from the new node in rollout search, 0 if the playout is not finished before its limit of turns is used up; and otherwise the network's evaluation, negated when the evaluated position has the other side to move, because the network rates positions for the side to move.",
 ["histories","inputs","configurations"],"all positions, both sides, all playout limits, every iteration",
 "No test runs a search or a playout.",
 [SM,AM,ND],[("simulate, terminal evaluation, backpropagate",ND+", "+SM+", "+AM)],[("value","accumulated value",ND)],["tree after each iteration; simulate()"],"search_step hook")
p("C13","Search descends to the best-scoring child, treating the opponent as adversary",
 "At every node it passes, each search iteration goes on to a child with the highest score: the child's mean credited value, negated where the side to move at the passed node is not the side the search is made for, plus the exploration bonus. The bonus is the square root of c*ln(parent visits)/visits in rollout search, and c*prior*sqrt(parent visits)/(1+visits) with mean 0 for an unvisited child in network-guided search; descent stops at the first node that still has untried moves or no children.",
 ["histories","configurations"],"all positions, exploration constants and iterations",
 "No test runs a search.",
 [ND,SM,AM],[("ucb, alpha_ucb, select_*",ND+", "+SM+", "+AM)],[("visits, value, policy","node statistics",ND)],["tree before and after each iteration"],"search_step hook")
p("C14","Positions searched in one batch do not influence each other",
 "When several positions are searched together, each position's tree gets exactly the configured number of iterations, one per round, and contains only positions of its own game; nothing that happens in the other trees (a game that ends there, a blocked position) adds, removes or changes visits, values or nodes in it. The i-th result belongs to the i-th position.",
 ["histories","schedules","configurations"],"all batches mixing ordinary, blocked and nearly finished positions, in any order",
 "No test runs a batched search.",
 [AM,UT],[("alpha_mcts_parallel game/node bookkeeping",AM)],[("selected node per game","batch bookkeeping",AM)],["tree after each iteration"],"search_step hook")
p("C15","The search result is the visit distribution over legal moves",
 "The move probabilities a search returns are, for each offered move's action code, that move's share of the visits of all root moves, and zero for every other code, so they sum to one whenever a move is offered. Rollout search plays a root move with the most visits, and network-guided play only ever picks moves with positive probability.",
 ["histories","inputs"],"all searched positions and batches",
 "One test sums eight equal hand-set visit counts.",
 [UT,SM,AZ],[("get_prob_tensor, get_prob_tensor_parallel, select_most_visits, weighted_select_tensor_idx",UT+", "+SM+", "+AZ)],[],["returned tensors"],"search_step hook")
p("C16","Move priors are a distribution over exactly the legal moves",
 "When network-guided search expands a node, the priors of its children are non-negative, sum to one, and are proportional to the network's policy for the offered moves' action codes in that position (provided it gives them any weight at all). At a root, and only there, the policy is first mixed with exploration noise in the configured proportion: a symmetric Dirichlet distribution of the configured concentration, drawn anew for every search.",
 ["histories","inputs","configurations"],"all expanded nodes, any network output, any noise share",
 "Two tests check that a masked random tensor sums to one; which entry goes to which child is never checked.",
 [UT,ND,NO,AM],[("turn_policy_to_probs*, alpha_expand*, apply_dirichlet",UT+", "+ND+", "+NO)],[("policy","prior",ND)],["tree after each iteration"],"search_step hook")
p("C17","Self-play records legal games with proper policy targets",
 "The positions that self-play records for one game form, in order, a legal game from the starting position: each is reached from the one before by an offered move that had positive probability there (and passes where no move was offered). Each recorded policy target is the distribution that the search of that position found: for every move offered there, under its action code, its share of the search's visits, and nothing for any other code, whatever the temperature moves are chosen with.",
 ["histories","configurations"],"all self-play runs, batch sizes, temperatures, round limits, both games",
 "No test runs self-play.",
 [AP,AN,UT],[("self_play_parallel, self_play",AP+", "+AN)],[("memories","per-game record",AP)],["returned samples"])
p("C18","Self-play labels every recorded position once, with its mover's true result",
 "Every game of a self-play run contributes each of its decision positions exactly once, in order, and no position is contributed by an unfinished game other than by the round limit. The label of each is +1 if the side to move there won the game, -1 if it lost, and 0 if the game was drawn or stopped by the configured round limit, and in batch self-play no game goes on beyond that limit.",
 ["histories","configurations"],"all lengths, winners, draws, passes and round limits of the games in a batch, in any combination",
 "No test runs self-play.",
 [AP,AN],[("end-of-game and round-limit handling",AP)],[("memories, n_rounds","per-game record, round counters",AP)],["returned samples"])
p("C19","Saved training data loads back unchanged",
 "Any non-empty list of training samples that is saved and loaded again comes back with the same length and order and the same outcome, policy target and position in every sample, also when it holds a single sample.",
 ["inputs"],"all sample lists (any length from one, any outcomes, both games)",
 "No test saves or loads training data.",
 [AZ],[("save_training_data, load_training_data",AZ)],[],["returned samples"])
p("C20","A learning run leaves each iteration's data and model on disk, once",
 "A learning run of L learning and S self-play iterations leaves, for every pair, one data set holding exactly the positions recorded in that self-play iteration and no others, and for every learning iteration the model as it was after that iteration's training. Each learning iteration trains on exactly the positions of its own self-play iterations, for the configured number of epochs.",
 ["histories","configurations"],"all numbers of iterations, epochs, batches",
 "No test runs the learning loop.",
 [AP,AZ],[("learn_parallel",AP)],[("data/, models/","files of a run",AP)],["files of the run"],"train_batch hook")
p("C21","The train command uses exactly the recorded data asked for",
 "Training from recorded data uses every data set below the requested scope (all runs of the game, one run, one learning iteration, one self-play iteration) exactly once and no data set outside it, whatever the run is called; a scope that does not exist is refused.",
 ["configurations","inputs"],"all scopes and all layouts of recorded runs",
 "No test runs the command line.",
 [MN,AZ],[("Train command, get_all_paths_rec",MN)],[("data/","recorded runs",MN)],["number of samples reported by the command; resulting model"])
p("C22","A model loaded from a file is the model that was saved",
 "A network restored from a model file, by giving its path, or by default from the best model when none is given, produces exactly the same outputs as the network that was saved, and learning or playing continues from those weights. A model file that cannot be read is refused rather than ignored.",
 ["histories","configurations"],"all saved networks, all ways of loading",
 "No test saves or loads a model.",
 [AZ,NN],[("AlphaZero::new, ResNet::from_path",AZ+", "+NN)],[],["network outputs before saving and after loading"])
p("C23","The best model is replaced only by a challenger that wins 55% or more",
 "After a learning iteration the stored best model is replaced by the new model exactly when the new model won at least 55% of all match games (draws count as not won); otherwise the stored one stays as it was. If there is no best model yet the new model becomes it.",
 ["histories","configurations"],"all match results (wins, draws, losses), any sequence of learning iterations",
 "No test plays models against each other.",
 [AV,VS],[("play_vs_best_model, play_vs_model",AV)],[("best_model.ot","stored best model",AV)],["file content before and after"])
p("C24","Match totals equal the results of the games played",
 "A match plays a fixed even number of games, half of them started by each agent, and finishes all of them. Wins of the first agent, wins of the second and draws are exactly the numbers of games with that result, sum to the number of games, and the reported win rate is the first agent's wins divided by the number of games; each recorded game names the agent that won it, or none.",
 ["histories"],"all combinations of game results, lengths and orders of finishing",
 "No test plays a match.",
 [VS],[("play",VS)],[("games, wins","match bookkeeping",VS)],["PlayResult"])
p("C25","In a match every agent decides exactly its own turns, in time",
 "In every game of a match the agent in the first seat decides exactly the turns of the first side and the other agent those of the second side, each decision is made for the current position of that very game, only offered moves are played, and a turn is passed only when no move is offered. A finished game is not played on, and no game lasts longer than the round limit.",
 ["histories","schedules"],"all mixes of games, turn orders, passes, double turns, agents",
 "No test plays a match.",
 [VS],[("play, get_actions_for_player",VS)],[("games","current positions",VS)],["moves applied to the games"])
p("C26","A saved game loads back as it was recorded and can be replayed",
 "A game saved after a match and loaded again has the same identity, agents, winner, starting position and turns, and all saved games of a folder are found again, once each. The recorded turns, played from the recorded starting position, lead to the final position of the game.",
 ["inputs","histories"],"all games of all matches",
 "No test saves or loads a game.",
 [VS,MN],[("Game, save_game, load_game, load_all_games, print_game",VS)],[],["loaded games"])
p("C27","One training pass uses every sample exactly once",
 "One training pass over a list of samples presents every sample to the network exactly once, in batches no larger than the configured batch size (all but the last full), each with its own outcome, policy target and position; the list keeps the same samples.",
 ["inputs","configurations","histories"],"all list lengths and batch sizes, any shuffle",
 "No test trains.",
 [AZ],[("train",AZ)],[],["batches presented"],"train_batch hook")
p("C28","A network is one fixed function of the position between training steps",
 "Between training steps and loads a network gives a position always the same answer, up to rounding: alone or within a batch, in any order of asking, whether policy and value, the policy alone or the form used in training is asked for, and whatever other networks do. Answering, searching, self-play and matches change nothing that the network keeps (weights and running averages). Every policy is a probability distribution over the action codes of the game and every value lies between -1 and 1; a network that took up the saved model of another answers as that one did.",
 ["histories","inputs"],"all sequences of questions, searches, self-play runs, matches, training passes and loads of several networks, all positions and batch sizes",
 "No test evaluates a network.",
 [NN,AM,AZ,AP],[("forward_t, forward_train, forward_policy",NN),("evaluation inside searches",AM)],[("vs","weights and running averages",NN)],["policy and value tensors","variables of the VarStore"])
p("C29","Moves are chosen with the chances their visits and the temperature give",
 "Wherever a network's search chooses a move (self-play, the next-move function, the model agent of a match) each offered move is chosen with a chance proportional to (its share of visits)^(1/temperature), with the temperature configured for that use, independently for every game and every time; a move without visits is never chosen. In a match, from the library or the command line, every model agent chooses with the model given for it. A random agent, and a random playout, choose each offered move with the same chance.",
 ["inputs","configurations","histories"],"all visit counts, temperatures from greedy to nearly uniform, single and batch self-play, matches, also whole ones from the command line",
 "No test chooses a move; chances need many choices in one and the same position.",
 [AZ,AP,AN,VS,UT],[("weighted_select_tensor_idx, apply_temperature",AZ+", "+UT),("move selection",AP+", "+AN+", "+VS)],[],["moves applied to the games"])
p("C30","A command does its whole work or is refused and leaves nothing behind",
 "Run in any folder and after any other commands, learn leaves one new run of data sets (one for every learning and self-play iteration), the models of its iterations and a best model; play leaves the games of one match in the given folder, naming the agents asked for; train leaves one model in the given place (by default the trained model of the game), made from the model given, or the best one; replay changes nothing. No other file is changed, and nothing recorded is ever written over. A command that lacks something (a setting in its configuration, the configuration itself, a readable model of that game, a known agent, an existing folder or data, enough processors) is refused with a failure and changes nothing.",
 ["histories","configurations"],"all sequences of commands with any arguments, settings and folder contents",
 "No test runs the command line.",
 [MN,AZ,AP,AV,VS,"src/lib.rs"],[("main, handle_command",MN),("from_config",AZ+", src/lib.rs"),("files of a run",AP)],[("./data, ./models, given paths","files",MN)],["exit status, files before and after"])
p("C31","Every game begins in the standard position, with fresh dice, half by each side",
 "Every new game stands in the game's standard starting position: in backgammon 15 checkers a side in the standard set-up (two on the farthest point, five on the mid-point, three and five nearer home), nothing on the bar or borne off, the first side to move with a first play; in tic-tac-toe an empty board. Every game of a self-play run begins so, with the first side to move; in a match exactly half of the games are begun by the first side and half by the other, and no two games share an identity number. Wherever a backgammon game is begun its dice have been rolled, every pair being equally likely, anew for every game.",
 ["configurations","histories"],"all new games, self-play runs of any size, matches between any agents, both games",
 "A test compares one new board; the games that self-play and matches begin are never looked at, and their dice are random.",
 [BG,TT,AP,AN,VS],[("new, get_initial_state",BG+", "+TT),("begin of games",AP+", "+AN+", "+VS)],[],["first samples of self-play games","initial_state of saved match games"])
p("C32","What is printed shows the position and the saved game",
 "For every backgammon position the printed form names the side to move, the dice, how many checkers each side has on the bar and borne off, and draws on each of the 24 numbered points as many checkers, of the right side, as stand there (up to five drawn, the number of further ones told beyond); for tic-tac-toe it shows the nine cells in order. Two backgammon positions that differ in board, side to move or dice, and two tic-tac-toe boards that differ, are printed differently. Replaying a saved game prints its identity, agents, winner and starting position.",
 ["inputs"],"all positions (also stacks of up to 15, many on the bar), all saved games",
 "No test prints a position.",
 [BG,TT,VS,MN],[("to_pretty_str",BG+", "+TT),("print_game",VS)],[],["text of to_pretty_str, standard output of replay"])
p("C33","A training step moves the network down its loss by the learning rate",
 "A step of training changes what the network keeps as Adam (0.9, 0.999) prescribes for the derivative of: the mean over the batch of the cross entropy between recorded targets and policy, plus the mean of the squared differences between values and recorded outcomes, plus half the configured weight decay times the squared weights. So a first step moves every output bias by exactly the configured learning rate, towards the targets unless the decay outweighs them, and each batch counts only with its own derivative.",
 ["inputs","configurations","histories"],"all batches, targets, outcomes, weights, learning rates, weight decays, sequences of steps",
 "No test trains.",
 [AZ,NN],[("train",AZ),("OptimizerParams::from_config, AlphaZero::new",AZ)],[("vs","weights",NN)],["variables of the VarStore before and after train"])
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,"properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
