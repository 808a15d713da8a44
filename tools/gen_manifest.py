#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the list of claimed properties."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "deterministic simulation with fault injection: "
C = {
 "C01": ("exploration", "seeded histories of whole games under simulated entropy and injected dice, every ply compared with an independent rules model", "sampled histories and constructed contact/bear-off positions; not exhaustive over positions"),
 "C02": ("exploration", "conservation and movement invariants checked after every step of seeded simulated games", "sampled histories"),
 "C03": ("exploration", "turn/dice protocol checked at every step; chi-square tests of the dice over simulated entropy", "independence and uniformity are statistical, thresholds set so that a fair die fails with negligible probability"),
 "C04": ("exploration", "winner, moves and turn order compared with independent models over seeded histories of both games", "sampled histories; tic-tac-toe histories cover most reachable boards"),
 "C05": ("exploration", "codes of all legal plays round-tripped in every position seeded histories reach", "sampled histories"),
 "C27": ("exploration", "network inputs of all positions of seeded histories compared plane by plane with the position", "sampled histories"),
 "C06": ("exploration", "seeded batches of searches (positions, networks, settings, entropy); visit accounting of every node of every tree", "sampled batches; small networks and trees"),
 "C07": ("exploration", "seeded batches of searches; values of every node recomputed from the network's own evaluations and the true winners", "sampled batches; float tolerance"),
 "C08": ("exploration", "seeded batches of searches; every expansion compared with the rules and the network's policy, the noise share and shape checked under repeated entropy", "sampled batches; the noise's shape is a statistical check with a wide threshold"),
 "C09": ("exploration", "seeded batches of searches; reported probabilities compared with visits, draws from them chi-square tested over simulated entropy", "sampled batches; drawing frequencies are statistical"),
 "C26": ("exploration", "every game's search repeated by a reference model on its own tree and compared visit by visit", "comparison stops for a game when two children score within float tolerance"),
 "C10": ("exploration", "seeded positions of all games under simulated entropy: answers, every rollout replayed from the event log, wins in sight decided by exact enumeration of random play", "sampled positions; the win-in-sight check asks for one hit in five searches unless no other play can win"),
 "C11": ("exploration", "seeded positions and whole self-play games; records compared with the event log of the game, searches with the batched search", "sampled positions and games"),
 "C12": ("exploration", "seeded batches of self-play on real and synthetic games; examples matched one to one with the event log of the games, policies with a repeated search", "sampled batches"),
 "C14": ("exploration", "seeded saves and loads in separate simulated processes with injected write/read/sync/rename faults, crashes, full disks and truncation; what a later process loads compared with what was saved", "sampled fault points and sizes; libtorch is real code, its file I/O goes through the simulated libc seam"),
 "C16": ("exploration", "seeded training passes repeated by a reference optimiser on the permutation recovered from the run", "sampled sizes, batches and networks; float tolerance"),
 "C17": ("exploration", "seeded models written by one simulated process, damaged or read under injected faults, and started from by another; weights and evaluations compared bit by bit", "sampled models and damages; small networks"),
 "C18": ("exploration", "seeded 400-game matches with chosen winners against the stored best model; the file compared with the result recorded in the event log", "sampled results around the threshold; synthetic game"),
 "C19": ("exploration", "seeded crashes, power losses, failed and torn writes and full disks at every operation of replacing a model file; a restarted process loads what is left", "sampled fault points; the simulated disk loses unsynced data and renames atomically"),
 "C15": ("exploration", "seeded learning runs; what is stored under each round compared with the games in the event log of the round; the train command run on seeded data directories under read faults, its model compared with a reference training pass", "sampled settings; synthetic and small tic-tac-toe games"),
 "C20": ("exploration", "seeded learning runs with injected write failures, full disks and crashes, some aimed at the models' files; checkpoints and best model compared with runs of the same seed that end earlier", "sampled settings and fault points; after a reported failure only what was reported as saved is compared"),
 "C21": ("exploration", "seeded 400-game matches under a simulated thread schedule; counts, win rate, credits and lengths compared with the event log of every game", "sampled matches; synthetic games in most runs"),
 "C22": ("exploration", "seeded matches under seeded preemption of the worker threads, spurious wake-ups and clock jumps; every move's legality and origin checked against the event log", "a model is told apart by the plays it would never choose, the plain search by wins in sight, the random agent by its spread"),
 "C23": ("exploration", "seeded games saved under injected write/sync/rename faults, crashes, power loss and full disks, damaged, and loaded by later simulated processes", "sampled fault points and damages; damage that leaves another valid record is out of reach without checksums"),
 "C24": ("exploration", "seeded matches; every record compared turn by turn with the event log of its game, sampled records saved, replayed and their output compared with the positions of the game", "sampled matches; the replay's output is searched for every position in order"),
 "C25": ("exploration", "the program itself run on seeded command lines, configurations, files and injected read/write faults, full disks and kills; exit, output and files left compared with what was asked", "sampled command lines and faults; learn and train run with tiny settings on tic-tac-toe"),
 "C28": ("exploration", "text of every position of seeded histories read back by its column labels, marks and counts and compared with the position", "sampled histories; the text is read by the present layout (labelled columns, x and o, +n for the rest)"),
 "C29": ("exploration", "seeded learning and train runs whose weights stop being numbers at a seeded point; exit status and every model file left are read back", "sampled settings; divergence by learning rate on tic-tac-toe and synthetic games"),
 "C13": ("exploration", "seeded batches of self-play with passes, endless games and exact limits; rounds of every game from the event log, termination by step bound", "sampled batches; termination means within the simulator's step bound"),
 "C30": ("exploration", "seeded learning runs over several iterations with chosen match results; a reference run of the public search, training pass and optimiser repeats every iteration, and examples and checkpoints are compared", "sampled settings; with more than one epoch weights are compared up to the share that float noise under batch normalisation can move"),
 "C31": ("exploration", "seeded sequences of searches, self-play, matches, saves and loads; weights and running statistics compared bit by bit before and after, evaluations compared across batches", "sampled networks and orders; evaluations across batch sizes compared within float tolerance"),
 "C32": ("exploration", "seeded interleavings of the file operations of several saving and reading processes, played by threads under the simulated scheduler; every read checked against the history of saves", "sampled schedules; processes are threads with their own state preempted at every file operation"),
}
NA = {
 "N01": "Strength over real training runs is a statistical claim about hours of learning with a moving opponent; a simulator decides schedules and faults, and no oracle for strength exists in it.",
 "N02": "Only the CPU backend exists here; agreement of CUDA or MPS kernels is not reachable by simulating schedules or faults on CPU.",
}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks = [{"property": p, "quick_cmd": f"bash run.sh check {p} quick", "thorough_cmd": f"bash run.sh check {p} thorough", "technique": T + t, "level": lv, "level_note": n} for p, (lv, t, n) in sorted(C.items())]
na = [{"property": p["id"], "reason": NA.get(p["id"], "check not built yet")} for p in props if p["id"] not in C]
json.dump({"version": 1, "setup_cmd": "bash run.sh build", "checks": checks, "not_applicable": na}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
