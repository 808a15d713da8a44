mod fw;
mod games;
mod rules;
mod scen_games;
mod scen_agents;
mod scen_cli;
mod scen_data;
mod scen_draws;
mod scen_match;
mod scen_model;
mod scen_rules;
mod scen_run;
mod scen_search;
mod scen_selfplay;
mod scen_turns;
mod scen_whole;
mod sim;
mod util;
use fw::*;

/// Touches what every run needs once, before any run is forked (nothing random, no threads).
pub fn warm() {
    tch::set_num_threads(1);
    tch::manual_seed(1);
    let _ = *die_e::constants::DEVICE;
    let _g = tch::no_grad_guard();
    games::record(games::ToyCfg::DEF, false, false);
    let net = match std::panic::catch_unwind(|| die_e::alphazero::nnet::ResNet::new::<games::WT>(tch::nn::VarStore::new(tch::Device::Cpu))) { Ok(n) => n, Err(_) => return };
    // a network that can't be used is for the runs to report
    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { let x = die_e::base::LearnableGame::as_tensor(&<games::WT as die_e::base::LearnableGame>::new()); let _ = net.forward_t(&x, false); }));
}
fn scens() -> Vec<Scen> { vec![
    Scen { name: "bg_history", gen: scen_rules::gen_bg, run: scen_rules::run_bg },
    Scen { name: "bg_dice", gen: scen_rules::gen_dice, run: scen_rules::run_dice },
    Scen { name: "ttt_history", gen: scen_rules::gen_ttt, run: scen_rules::run_ttt },
    Scen { name: "search", gen: scen_search::gen, run: scen_search::run },
    Scen { name: "mct", gen: scen_agents::gen_mct, run: scen_agents::run_mct },
    Scen { name: "single", gen: scen_agents::gen_single, run: scen_agents::run_single },
    Scen { name: "selfplay", gen: scen_selfplay::gen, run: scen_selfplay::run },
    Scen { name: "store", gen: scen_data::gen_store, run: scen_data::run_store },
    Scen { name: "train", gen: scen_data::gen_train, run: scen_data::run_train },
    Scen { name: "model", gen: scen_model::gen_model, run: scen_model::run_model },
    Scen { name: "best", gen: scen_model::gen_best, run: scen_model::run_best },
    Scen { name: "replace", gen: scen_model::gen_best, run: scen_model::run_replace },
    Scen { name: "run", gen: scen_run::gen, run: scen_run::run },
    Scen { name: "match", gen: scen_match::gen, run: scen_match::run },
    Scen { name: "games", gen: scen_games::gen, run: scen_games::run },
    Scen { name: "train_cli", gen: scen_cli::gen_sel, run: scen_cli::run_sel },
    Scen { name: "cli", gen: scen_cli::gen_cli, run: scen_cli::run_cli },
    Scen { name: "diverge", gen: scen_cli::gen_div, run: scen_cli::run_div },
    Scen { name: "course", gen: scen_whole::gen_course, run: scen_whole::run_course },
    Scen { name: "inert", gen: scen_whole::gen_inert, run: scen_whole::run_inert },
    Scen { name: "shared", gen: scen_whole::gen_shared, run: scen_whole::run_shared },
    Scen { name: "root", gen: scen_search::gen_root, run: scen_search::run_root },
    Scen { name: "draws", gen: scen_draws::gen, run: scen_draws::run },
    Scen { name: "turns", gen: scen_turns::gen, run: scen_turns::run },
    Scen { name: "noise", gen: scen_search::gen_noise, run: scen_search::run_noise },
] }
fn props() -> Vec<Prop> {
    let rules = "a case is one simulated history of games (styles, injected dice and start drawn from the seed); non-trivial: at least one full game history was played and checked ply by ply";
    let real = "backgammon and tic-tac-toe game logic, thread_rng, rand"; let stub = "entropy source (getrandom) and injected dice";
    let p = |id, scens: &[(&'static str, usize, usize)]| Prop { id, scens: scens.to_vec(), rule: rules, real, stub, level: "exploration" };
    let q = |id, scens: &[(&'static str, usize, usize)]| Prop { id, scens: scens.to_vec(), rule: "a case is one search of a batch of positions (game, positions, network, settings and entropy drawn from the seed); non-trivial: at least one iteration ran on an expanded tree", real: "search, node store, game logic or synthetic game driven by the real search, network (small width), libtorch", stub: "entropy source, clock; synthetic game in part of the runs", level: "exploration" };
    let sp = |id, scens: &[(&'static str, usize, usize)]| Prop { id, scens: scens.to_vec(), rule: "a case is one batch of self-play games (game, batch size, round limit, lengths, passes, network, settings and entropy drawn from the seed) compared with the recorded history of its games; non-trivial: at least one move was made", real: "self-play, search, network (small width), libtorch, game logic or synthetic game", stub: "entropy source, clock; synthetic game in most runs", level: "exploration" };
    let d = |id, scens: &[(&'static str, usize, usize)]| Prop { id, scens: scens.to_vec(), rule: "a case is one save of made-up examples under injected faults, crashes or a full disk, followed by a load in a later process; non-trivial: a save was attempted", real: "saving and loading code, libtorch's serialisation, file system below the injected calls", stub: "libc file calls wrapped (faults, crashes, lost unsynced data), entropy, clock", level: "exploration" };
    let t = |id, scens: &[(&'static str, usize, usize)]| Prop { id, scens: scens.to_vec(), rule: "a case is a set of examples, a network and optimiser settings drawn from the seed, trained by the code and by a reference; non-trivial: at least one step was taken", real: "training code, optimiser, libtorch autograd", stub: "entropy source, clock; example contents made up", level: "exploration" };
    let m = |id, scens: &[(&'static str, usize, usize)]| Prop { id, scens: scens.to_vec(), rule: "a case is one model (game, network, file name) written by one process, possibly damaged, and used by another; non-trivial: the second process tried to start from it", real: "model loading and saving, libtorch's serialisation, network", stub: "libc file calls wrapped, entropy, clock; weights made up; small networks", level: "exploration" };
    let b = |id, scens: &[(&'static str, usize, usize)]| Prop { id, scens: scens.to_vec(), rule: "a case is one 400-game match of the current model against the stored best model, or the saving of a model under injected faults; non-trivial: the match was played or the save attempted", real: "match, search, model files, libtorch", stub: "synthetic game whose winners the seed decides; libc file calls wrapped (faults, crashes, lost unsynced data), entropy, clock", level: "exploration" };
    let u = |id, scens: &[(&'static str, usize, usize)]| Prop { id, scens: scens.to_vec(), rule: "a case is a whole learning run (iterations, rounds, games, epochs, start and faults drawn from the seed); non-trivial: the run was started", real: "learning loop, self-play, search, training, match, storage, libtorch", stub: "synthetic or wrapped game with a small network; libc file calls wrapped, entropy, clock", level: "exploration" };
    let v = |id, scens: &[(&'static str, usize, usize)]| Prop { id, scens: scens.to_vec(), rule: "a case is one 400-game match (game, agents, models, worker threads, schedule and entropy drawn from the seed) compared with the event log of its games; non-trivial: the match was started", real: "match, agents, searches, rayon's thread pool, libtorch, game records", stub: "synthetic or wrapped game, thread scheduling (futex and yield points), entropy, clock; made-up models", level: "exploration" };
    vec![
        u("C30", &[("course", 300, 2500)]),
        Prop { id: "C31", scens: vec![("inert", 500, 5000)], rule: "a case is one model (game, network drawn from the seed) used by a few operations that do not train it; non-trivial: at least one operation was carried out", real: "search, self-play, move choice, match, saving and loading, network (small width), libtorch", stub: "entropy source, clock, thread scheduling; synthetic game in part of the runs", level: "exploration" },
        Prop { id: "C32", scens: vec![("shared", 1800, 20000)], rule: "a case is 2 to 4 processes that save and read the same model or the same directory of games (what each does, schedule, faults and crashes drawn from the seed); non-trivial: at least two processes took part", real: "saving and loading of models and games, libtorch's serialisation, file system below the injected calls", stub: "the processes are threads of one simulated process, every file operation a scheduling point; libc file calls wrapped, entropy, clock; made-up models and games", level: "exploration" },
        Prop { id: "C23", scens: vec![("games", 1500, 20000), ("cli", 45, 450)], rule: "a case is a set of games of random play saved by one process under injected faults, crashes, power loss or a full disk, possibly damaged, and loaded by later processes; non-trivial: a save was attempted", real: "game records, saving and loading, serde_json", stub: "libc file calls wrapped (faults, crashes, lost unsynced data), entropy, clock; games of random play", level: "exploration" },
        Prop { id: "C25", scens: vec![("cli", 360, 4000), ("draws", 90, 800), ("search", 150, 1500), ("noise", 16, 120)], rule: "a case is one run of the program (command, arguments, configuration, files it finds, faults and entropy drawn from the seed); non-trivial: the program was run", real: "the die-e program itself with everything below it: argument parsing, configuration, commands, libtorch, file system below the injected calls", stub: "libc file calls wrapped, entropy, clock, number of cpus; processes are forked from a zygote that has the program loaded", level: "exploration" },
        v("C21", &[("match", 320, 4000), ("cli", 24, 300)]), v("C22", &[("match", 320, 4000), ("cli", 24, 300)]), v("C24", &[("match", 200, 3000), ("cli", 24, 300)]),
        p("C01", &[("bg_history", 2500, 20000)]), p("C02", &[("bg_history", 2500, 20000)]), p("C03", &[("bg_history", 1200, 5000), ("bg_dice", 150, 600), ("turns", 60, 400)]),
        p("C04", &[("bg_history", 1200, 5000), ("ttt_history", 300, 1000)]), p("C05", &[("bg_history", 2500, 20000), ("ttt_history", 80, 300)]),
        p("C27", &[("bg_history", 800, 3000), ("ttt_history", 100, 300)]), p("C28", &[("bg_history", 1200, 5000), ("ttt_history", 100, 300)]),
        Prop { id: "C29", scens: vec![("diverge", 300, 3000)], rule: "a case is one learning run or train command whose learning rate or weight decay drives the weights out of the numbers (or a sound one), run to its end or its failure; non-trivial: at least one training step was taken or refused", real: "learning loop or the die-e program, training, optimiser, storage, libtorch", stub: "synthetic game in the library runs, entropy, clock, small networks", level: "exploration" },
        q("C06", &[("search", 2500, 20000)]), q("C07", &[("search", 2500, 20000)]), q("C08", &[("search", 1500, 20000), ("noise", 60, 300), ("root", 240, 1500)]), q("C09", &[("search", 700, 20000), ("draws", 120, 1500)]), q("C10", &[("mct", 3000, 12000)]), q("C11", &[("single", 1200, 12000)]), sp("C12", &[("selfplay", 1400, 15000)]), sp("C13", &[("selfplay", 1400, 15000)]), d("C14", &[("store", 1500, 20000)]), t("C16", &[("train", 600, 5000), ("cli", 40, 400)]), m("C17", &[("model", 1200, 10000), ("cli", 84, 800)]), u("C15", &[("run", 300, 5000), ("train_cli", 200, 4000)]), u("C20", &[("run", 360, 6000), ("cli", 24, 300)]), b("C18", &[("best", 350, 5000)]), b("C19", &[("replace", 1000, 15000)]), q("C26", &[("search", 2000, 20000)]),
    ]
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let verif = std::path::PathBuf::from(std::env::var("DSIM_VERIF").unwrap_or_else(|_| "/verif".into()));
    let seed = std::env::var("VERIF_SEED").ok().and_then(|v| v.trim().parse::<u64>().ok()).unwrap_or(1);
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("worker") => { if !sim::preloaded() { eprintln!("libdiesim.so is not loaded"); std::process::exit(2) } worker(scens(), props()) }
        Some("check") => { let t = a.get(3).cloned().or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or_default(); check(&scens(), &props(), &a[2], t == "thorough", seed, &verif) }
        Some("replay") => replay(&a[2]),
        Some("determinism") => determinism(&props(), &a[3.min(a.len())..], a.get(2).and_then(|v| v.parse().ok()).unwrap_or(20), seed),
        Some("one") => { let p = props(); let pr = p.iter().find(|p| p.id == a[2]).unwrap(); let pl = plan_for(&scens(), pr, seed, false, a[3].parse().unwrap()); println!("{}", serde_json::to_string(&pl).unwrap()); println!("{:?}", Worker::start().plan(&pl)); 0 }
        _ => { eprintln!("usage: die-sim check ID [tier] | replay FILE | determinism N [IDS] | one ID IDX"); 2 }
    };
    std::process::exit(code)
}
