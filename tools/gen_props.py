#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (source of truth for the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe or [], hook_needed=hook)))
BG = "src/backgammon/backgammon_logic.rs"
TT = "src/tictactoe/mod.rs"
AM = "src/mcts/alpha_mcts.rs"
SM = "src/mcts/simple_mcts.rs"
NO = "src/mcts/node.rs"
ST = "src/mcts/node_store.rs"
UT = "src/mcts/utils.rs"
NZ = "src/mcts/noise.rs"
AP = "src/alphazero/alpha_parallel.rs"
AN = "src/alphazero/alpha_no_parallel.rs"
AV = "src/alphazero/alpha_versus.rs"
AZ = "src/alphazero/alphazero.rs"
NN = "src/alphazero/nnet.rs"
VS = "src/versus.rs"
MA = "src/main.rs"

p("C01", "Backgammon play follows the rules in every game",
  "In every position that any history of dice and moves can reach, the plays offered to the side to move lead to exactly the positions the rules of backgammon allow for that roll, each once: checkers on the bar enter first, a point held by two or more opposing checkers blocks, a lone opposing checker is hit, checkers are borne off only when all are home, a higher die bears off only from the rearmost point, and as many of the two dice as possible are used (either one when only one can be). Applying an offered play yields exactly the position those rules give.",
  ["histories", "inputs"], "all dice sequences, all choices by both players, all positions reached",
  "The tests check a handful of hand-made boards and mostly one helper each; reaching contact positions with mixed home boards, bar entries and partial rolls takes whole games under random dice.",
  [BG], [("move generation", BG + " get_valid_moves/get_normal_moves/get_entry_moves"), ("duplicate removal", BG + " remove_duplicate_states"), ("applying a play", BG + " get_next_state/apply_move")],
  [("board", "points, bar, borne-off counts", BG)], ["LearnableGame::get_valid_moves", "LearnableGame::apply_move"])
p("C02", "Checkers are never created, lost or misplaced",
  "At every moment of every backgammon game each side has exactly 15 checkers counting points, bar and borne off, no counter under- or overflows, a play moves only the mover's checkers towards home by the dice rolled, and the opponent's checkers change only by a lone one being sent to the bar. Borne-off counts never decrease.",
  ["histories"], "all games of any length under any dice and any players, including forced passes and doubles",
  "Conservation over a whole game is never tested; unit tests apply single moves to hand-made boards.",
  [BG], [("applying a play", BG + " get_next_state"), ("turn passing", BG + " skip_turn")], observe=["Backgammon.board after every step"])
p("C03", "Turns and dice follow the protocol",
  "Each turn in a backgammon game starts with two fresh independent dice, each uniform on 1 to 6; a double gives the same player a second play with the same dice, any other play or a pass hands the turn to the opponent with a new roll. Nothing else changes whose turn it is or the dice.",
  ["histories", "schedules"], "all sequences of plays and passes, all entropy the dice can draw",
  "No test drives more than one move, and none looks at the dice or at second plays of doubles.",
  [BG], [("turn hand-over", BG + " apply_move/skip_turn"), ("dice", BG + " roll_die")],
  [("roll, player, is_second_play", "dice shown, side to move, second half of a double", BG)], ["state after apply_move/skip_turn/roll_die"])
p("C04", "A game ends exactly when it is won or drawn, with the right winner",
  "A backgammon game is over exactly when one side has borne off all 15 checkers and that side is the winner; a tic-tac-toe game is over exactly when a player has three in a row (that player wins) or the board is full (a draw), offers exactly the empty squares as moves, and alternates turns. While a game is not over no winner is reported, and repeated play under any dice and any choices reaches an end.",
  ["histories"], "all play histories of both games",
  "Tests check two winning boards; draws, full games, wins on the last square and ends in the middle of a double are not reached.",
  [BG, TT], [("winner detection", BG + " check_winner"), ("winner detection", TT + " check_winner"), ("moves", TT + " get_valid_moves/apply_move")], observe=["LearnableGame::check_winner after every step"])
p("C05", "Every legal play has its own action code in every reachable position",
  "In every position any game reaches, each legal play is given an action code within the game's action space, decoding that code in the same position returns that very play, and no two legal plays share a code. This holds for both the generic game interface and the direct encoding functions of backgammon, which agree.",
  ["histories", "inputs"], "all positions, dice, and sides reached by any history",
  "Encoding tests are 46 hand-picked moves on an empty board through one of the two copies of the code; agents use the other copy on whatever position a game reaches.",
  [BG, TT, "src/backgammon/encoding.rs"], [("encode/decode", BG + " encode/decode"), ("inherent copy", "src/backgammon/encoding.rs")], observe=["encode, decode"])
p("C06", "A batched search spends exactly its budget on each game, in isolation",
  "For any batch of positions searched together, whatever mix of finished, blocked and ongoing games it holds and at whatever moments their lines end, each game's root ends with one visit plus one per configured iteration, every visit of a position is one more evaluation of it or of a position below it, and no evaluation of one game is ever credited to another.",
  ["inputs", "configurations", "schedules"], "all batch sizes and compositions, iteration counts, exploration constants, hash iteration orders and noise",
  "No test runs the search at all.",
  [AM, SM, NO, ST], [("selection and batching", AM + " alpha_mcts_parallel"), ("back-up", SM + " backpropagate")],
  [("visits", "visit counts in the search tree", NO)], ["node store after alpha_mcts_parallel"])
p("C07", "Search values are the evaluations actually made",
  "After a batched search, each position's accumulated value equals the sum, over the visits credited to it and to the positions below it, of the network's evaluation of the visited position, or, for a finished game, of its result for the searching side (+1 win, -1 loss, 0 draw). No evaluation is dropped, duplicated, scaled or attached to another position.",
  ["inputs", "configurations", "schedules"], "all batches, networks, iteration counts and game outcomes met inside the search",
  "No test runs the search; wrong results for finished games only show in lines that end inside the tree.",
  [AM, SM], [("evaluation and back-up", AM + " alpha_mcts_parallel"), ("back-up", SM + " backpropagate")], observe=["node store after alpha_mcts_parallel"])
p("C08", "The search tree mirrors the game, with priors from the noisy network policy",
  "In every search tree, each expanded position's children are exactly its legal plays, each once, each child being that position after that play; a finished game is never expanded. Below the root the priors are the network's policy restricted to the legal plays and normalised; at the root they are that policy mixed with Dirichlet noise in the configured proportion, restricted and normalised, so with proportion zero they equal the network's.",
  ["inputs", "configurations", "schedules"], "all batches, networks, noise draws and noise settings",
  "Tests normalise a random policy for ten empty boards and never expand a tree.",
  [AM, NO, UT, NZ], [("expansion", NO + " alpha_expand_tensor"), ("masking", UT + " turn_policy_to_probs_tensor*"), ("noise", NZ + " apply_dirichlet")], observe=["node store after alpha_mcts_parallel"])
p("C09", "Search results are distributions over legal moves in proportion to visits",
  "The move probabilities a search reports for a position are non-negative, sum to one, are positive only on codes of legal plays and stand in the ratio of the visits spent on them; a position with no legal play reports no move. A move is drawn only with the probability reported, so a code of zero probability is never drawn.",
  ["inputs", "configurations", "schedules"], "all searched positions in batches of any composition and all entropy used in drawing",
  "One test with eight hand-set visit counts; batches mixing blocked and open positions, and the drawing of moves, are not tested.",
  [UT, AZ, VS], [("probabilities", UT + " get_prob_tensor*"), ("drawing", AZ + " weighted_select_tensor_idx")], observe=["get_prob_tensor_parallel", "weighted_select_tensor_idx"])
p("C10", "The plain MCTS agent always answers, legally, and takes a win in sight",
  "For every position of every game the plain search agent returns without failing: a legal play if there is one, the empty move if there is none or the game is over. Each iteration scores one continuation by the result actually reached for the searching side (win +1, loss -1, undecided or drawn 0) within the round limit, and given a few hundred iterations it plays an immediately winning move when one exists and its other moves risk not winning.",
  ["histories", "schedules", "configurations"], "all reachable positions, entropy, iteration counts, limits",
  "No test runs this agent; positions with no legal play appear only under unlucky dice inside the tree.",
  [SM, NO], [("search", SM + " mct_search"), ("rollout", NO + " simulate/expand")], observe=["mct_search", "Node::simulate"])
p("C11", "The single-game search, self-play and move choice work like the batched ones",
  "For every position of every supported game the single-position search ends without failing and returns a probability distribution over the legal plays (nothing if the game is over or no play is possible), choosing a move for a position returns a legal play or the empty move, and single-game self-play always finishes a game and labels each recorded position +1, -1 or 0 by the game's result for the side that moved.",
  ["histories", "schedules", "configurations"], "all reachable positions, both games, networks, noise and iteration counts",
  "Nothing exercises this path in the tests or the command line.",
  [AM, AN, AZ, UT], [("search", AM + " alpha_mcts"), ("self-play", AN + " self_play"), ("move choice", AZ + " get_next_move_for_state")], observe=["alpha_mcts", "AlphaZero::self_play", "AlphaZero::get_next_move_for_state"])
p("C12", "Self-play examples tell the truth about the games played",
  "Every move made by batched self-play yields exactly one training example, and nothing else does: its position is the one the move was made in, as seen by the network; its policy is positive only on legal plays of that position and proportional to the search's visits under the configured temperature; its outcome is +1, -1 or 0 as the side that moved won, lost or drew that same game, and 0 for every position of a game cut at the round limit.",
  ["histories", "schedules", "configurations"], "all batches, dice, game lengths relative to the round limit, draws, passes and orders in which games end",
  "No test covers self-play; mislabelling needs games of a batch ending at particular moments.",
  [AP, BG, TT], [("recording and labelling", AP + " self_play_parallel"), ("network input", BG + " as_tensor"), ("network input", TT + " as_tensor")], observe=["AlphaZero::self_play_parallel result"])
p("C13", "Self-play always finishes, within the round limit",
  "Batched self-play always returns: each game of the batch takes at most the configured number of rounds (moves and passes) and is then cut, whatever the dice, the passes and the order in which the other games of the batch end. A game that can finish within the limit is not cut before it.",
  ["histories", "schedules", "configurations"], "all dice, game lengths, pass patterns, batch sizes and limits",
  "No test covers self-play; termination depends on every combination of limits, passes and endings.",
  [AP], [("round limit", AP + " self_play_parallel")], observe=["AlphaZero::self_play_parallel"])
p("C14", "Saved training data comes back intact or not at all",
  "Training data of one or more examples that was saved without a reported failure is loaded by a later process as the same examples, in the same order, with identical positions, policies and outcomes. If a write fails or the process dies while saving, the failure is reported or a later load fails visibly: no load ever returns examples that were not the ones saved.",
  ["fault_sequences", "crash_points", "inputs"], "all sizes and contents, write errors, full disks, short writes and crash points during saving",
  "No test saves or loads training data.",
  [AZ], [("save", AZ + " save_training_data"), ("load", AZ + " load_training_data")], [("ps.ot, states.ot, outcomes.ot", "one directory of saved examples", "data/")], ["files under data/", "load_training_data"])
p("C15", "Runs store each example once, and train loads exactly what was asked",
  "During a learning run the examples of each self-play round are stored under that run, learning iteration and round, and only there, so that the stored directories together hold each example of the run exactly once. The train command loads all examples under the selected run, iteration or round and no others, whatever identifiers the run was given, and refuses a selection that does not exist.",
  ["histories", "configurations", "schedules"], "all numbers of iterations and rounds, run identifiers, and selections",
  "No test runs learning or the command line; identifiers are random.",
  [AP, MA], [("storing", AP + " learn_parallel"), ("selection", MA + " Train")], observe=["files under data/", "train command output"])
p("C16", "A training pass uses every example exactly once, in batches, as specified",
  "One training pass over a set of examples presents each example exactly once, in a random order, in consecutive batches of the configured size (the last possibly smaller), each batch taking one Adam step with the configured learning rate and weight decay on the sum of the cross-entropy of the policy against the stored policy and the mean squared error of the value against the stored outcome. The examples themselves are not altered by training.",
  ["inputs", "configurations", "schedules"], "all sets of examples, batch sizes relative to the set size, shuffles and numbers of passes",
  "No test trains a model.",
  [AZ, NN], [("training", AZ + " train"), ("forward pass", NN + " forward_train")], observe=["model weights after AlphaZero::train"])
p("C17", "A model file reproduces the model, and a run starts from the model it is given",
  "Weights saved to a file and loaded by a later process give a network with identical weights and evaluations. Learning, training and playing started with a model file, or with the stored best model when none is named, start from exactly the weights in that file, and a missing, truncated or foreign file is refused with an error instead of silently starting from other weights.",
  ["histories", "fault_sequences"], "all weights reached by training, restarts, missing or damaged files",
  "No test saves, loads or restarts anything.",
  [AZ, NN, AV], [("start from file", AZ + " new"), ("load", NN + " from_path"), ("save", AZ + " save_current_model")], observe=["AlphaZero::new", "ResNet::from_path", "model files"])
p("C18", "The best model yields only to a challenger winning 55% of the match",
  "When no best model exists the current model becomes it. Otherwise the stored best model is replaced by the current model if and only if the current model won at least 55% of all match games, draws counting as not won, and is then exactly the current model; in every other case the stored best model is left untouched.",
  ["histories", "schedules"], "all match results including exact thresholds, draws and games cut at the limit",
  "No test plays a match or promotes a model.",
  [AV, VS], [("gate", AV + " play_vs_best_model/play_vs_model"), ("win rate", VS + " play")], [("best_model.ot", "stored best model", "models/<game>/")], ["models/<game>/best_model.ot"])
p("C19", "A crash or write failure never destroys the stored best model",
  "Whatever the moment a learning process is killed, loses power, or has a write fail while replacing the best model, the best-model file afterwards holds either the complete previous or the complete new model and a restarted process loads it. The same holds for writing any other model file that already existed.",
  ["crash_points", "fault_sequences"], "all crash points and I/O errors during a learning run, with only synced data surviving a power loss",
  "Tests never write a model, let alone fail while doing so.",
  [AV, AP, AZ], [("promotion", AV + " play_vs_best_model"), ("checkpoint", AP + " learn_parallel")], observe=["models/<game>/*.ot after restart"])
p("C20", "A learning run leaves its checkpoints and best model, and no false reports",
  "A learning run that ends without a failure report leaves, for each learning iteration, a checkpoint with exactly the weights the model had after that iteration's training, and a best model, also when started in a fresh checkout without any model directory. A save is reported as successful only if the file is complete.",
  ["fault_sequences", "configurations", "histories"], "all iteration counts, fresh or used directories, and write failures",
  "No test runs learning.",
  [AP, AV], [("checkpoint", AP + " learn_parallel"), ("promotion", AV + " play_vs_best_model")], observe=["models/<game>/", "reported messages"])
p("C21", "A match counts every game once and credits the right winner",
  "A match plays its full number of games, half started by each side, and returns a record for every one; wins of the two players and draws add up to the number of games, the win rate is the first player's wins divided by it, and each game is credited to the player whose side won it, or to nobody when drawn or cut at the round limit. A match always ends.",
  ["histories", "schedules", "configurations"], "all agent pairings, dice, game lengths, draws, and orders in which games end",
  "No test plays a match.",
  [VS], [("match loop", VS + " play")], observe=["play result"])
p("C22", "Every match move comes from the right agent for the right game",
  "In a match each game advances only by a play that is legal in its current position and was chosen for that very game by the agent (and model) owning the side to move, or by a pass when it has no play, however the worker threads that compute moves are scheduled, however many there are, and whatever the clock does.",
  ["schedules", "histories", "configurations"], "all interleavings of worker threads, thread counts, clock behaviour and agent pairings",
  "No test plays a match or runs anything in parallel.",
  [VS], [("move computation", VS + " get_actions_for_player"), ("match loop", VS + " play")], observe=["moves applied to each game", "play result"])
p("C23", "A game reported as saved is on disk and loads back identical",
  "When saving a game reports success, the file written under the game's identifier loads back as the same record; when the data cannot be written completely the save reports an error. Loading a damaged or truncated file reports an error and never yields a different game, and loading a directory returns every game saved in it.",
  ["fault_sequences", "crash_points", "inputs"], "all records, write errors, full disks, short and interrupted reads and writes",
  "No test saves or loads a game.",
  [VS], [("save", VS + " save_game"), ("load", VS + " load_game/load_all_games")], observe=["save_game result", "load_game", "load_all_games"])
p("C24", "A saved match game records the moves needed to replay it",
  "The record of a finished match game holds its turns in the order they were played, so that replaying it shows every position of that game up to the recorded result.",
  ["histories"], "all games of all matches",
  "No test plays, saves or replays a game.",
  [VS], [("recording", VS + " play"), ("replay", VS + " print_game")], observe=["Game.turns of a play result", "replay output"])
p("C25", "The command line does what it documents, or refuses",
  "Every documented command either completes and leaves exactly the documented files (a saved game per match game, stored examples, checkpoints, a trained model, a replay of a saved game) or ends with an error when an argument, configuration value, path or model is missing or invalid; no command reports success without its result. The configured parameters reach the parts they name.",
  ["configurations", "fault_sequences", "schedules"], "all commands, argument combinations, configuration values, thread counts and I/O faults",
  "No test starts the program.",
  [MA, "src/lib.rs", AZ], [("dispatch", MA + " handle_command"), ("configuration", "src/lib.rs MctsConfig::from_config")], observe=["exit status and files of the die-e program"])
p("C26", "The search follows its selection rule, so equal searches agree",
  "In every iteration of a batched search the line followed takes, at each position, the child with the largest mean value plus exploration constant times prior times the square root of the parent's visits divided by one plus the child's visits. The result for a position therefore depends only on that position, the network, the settings and the noise and dice drawn, never on the other positions of the batch or on the order in which they are processed.",
  ["inputs", "configurations", "schedules"], "all batches, networks, iteration counts, exploration constants and hash iteration orders",
  "No test runs the search; a wrong formula only shifts visits.",
  [AM, NO], [("selection", AM + " alpha_select_leaf_node/select_alpha"), ("score", NO + " alpha_ucb")], observe=["node store after alpha_mcts_parallel"])
p("C27", "The network sees the whole position",
  "The network input of a position shows exactly that position: for backgammon the checkers on each point, on the bar and borne off for each side, the side to move, the dice in the order rolled and whether it is the second play of a double, each in its own plane; for tic-tac-toe which squares the first player holds, which are empty and which the second player holds. Positions that differ in any of these never have the same input.",
  ["histories"], "all positions reached by any history",
  "No test looks at the network input.",
  [BG, TT], [("network input", BG + " as_tensor"), ("network input", TT + " as_tensor")], observe=["LearnableGame::as_tensor"])
p("N01", "Training makes the model a stronger player",
  "Over a learning run the best model's playing strength against a fixed opponent does not fall and eventually rises.",
  ["histories"], "all runs",
  "Statistical outcome of hours of training.",
  [AP, AV], [("learning loop", AP + " learn_parallel")])
p("N02", "Results are the same on every compute device",
  "Search, training and stored files agree between CPU, CUDA and MPS up to floating-point tolerance.",
  ["configurations"], "all supported devices",
  "Tests run on whatever device the machine has.",
  ["src/lib.rs", AZ], [("device choice", "src/lib.rs constants")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
