//! C15 (train command), C25: the real program, run as a process under the simulator.
use crate::ensure;
use crate::fw::*;
use crate::games::*;
use crate::scen_data::{agrees, examples, faults, flatten, put, train_ref, READ_KINDS, STAT_KINDS};
use crate::scen_model::*;
use crate::scen_run::{dirs_below, files_below, reports_failure};
use crate::sim::{mix, CliOut, Exit, SimCfg};
use crate::scen_whole::set_weights;
use crate::util::*;
use die_e::alphazero::alphazero::{AlphaZero, MemoryFragment};
use die_e::alphazero::nnet::ResNet;
use die_e::backgammon::backgammon_logic::Backgammon;
use die_e::base::LearnableGame;
use die_e::tictactoe::TicTacToe;
use die_e::versus::{load_all_games, save_game, Agent, Game, Turn};
use serde_json::json;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use tch::{nn::VarStore, Device, Tensor};

type T3 = TicTacToe;
fn h(e: impl ToString) -> Bad { Bad::H(e.to_string()) }
fn bad<T>(class: &str, m: impl Into<String>) -> Result<T, Bad> { viol(class, m).map_err(Bad::V) }
fn tree(d: &Path) -> BTreeMap<PathBuf, u64> { files_below(d).into_iter().map(|f| { let b = std::fs::read(&f).unwrap_or_default(); let mut x = b.len() as u64; for c in b.chunks(8) { let mut w = [0; 8]; w[..c.len()].copy_from_slice(c); x = mix(x ^ u64::from_le_bytes(w)); } (f, x) }).collect() }
fn text(o: &CliOut) -> String { format!("{}\n{}", o.stdout, o.stderr) }
fn short(o: &CliOut, root: &Path) -> String { let t = o.stderr.lines().filter(|l| !l.trim().is_empty() && !l.starts_with("note:")).take(3).collect::<Vec<_>>().join(" / ").replace(root.to_str().unwrap(), "."); t.chars().take(300).collect() }
/// Ran to an end of its own (a hang or a spurious stop is a violation by itself).
fn ended(o: &CliOut) -> Res { match o.exit { Exit::StepCap | Exit::Deadlock | Exit::CpuCap | Exit::Wall => exit_ok(&o.exit).map_err(Bad::V), Exit::Code(95) => Err(h("simulator internal limit")), _ => Ok(()) } }
/// Flags as the help text (kebab) or the README (snake) spells them.
fn flag(p: &Plan, f: &str) -> String { if p.i("snake") != 0 { f.replace('-', "_").replacen("__", "--", 1) } else { f.to_string() } }
fn args(v: &[String]) -> Vec<&str> { v.iter().map(|s| s.as_str()).collect() }

// ---------------------------------------------------------------- C15: which examples train uses
const IDS: [&str; 10] = ["abc", "sp", "xsp-1", "lrn-0", "a", "ab", "sp-1", "run-abc", "V1StGXR8_Z5jdHi6B-myT", "lrn-1"];
pub fn gen_sel(r: &mut Rng, _p: &str, _t: bool, i: usize) -> Plan {
    let mut p = newplan(); let mut at = vec![]; let n = r.range(1, 7); let runs: Vec<i64> = (0..r.range(1, 3)).map(|_| r.range(0, 9)).collect();
    for _ in 0..n { let e = json!([*r.pick(&runs), *r.pick(&[0, 1, 1, 10, 11]), *r.pick(&[0, 1, 1, 2, 10, 11]), r.range(1, 5)]); if !at.iter().any(|x: &serde_json::Value| (0..3).all(|k| x[k] == e[k])) { at.push(e); } }
    // runs laid out alike, with rounds of the same names; very many rounds
    if i % 16 == 8 { let lay: Vec<(i64, i64)> = (0..r.range(1, 2)).map(|_| (*r.pick(&[0, 1, 10]), *r.pick(&[0, 1, 2]))).collect(); let first = r.range(0, 6); at.clear(); for k in 0..r.range(2, 3) { for (a, b) in &lay { at.push(json!([first + k, a, b, r.range(1, 5)])); } } }
    if i % 32 == 16 { at.clear(); let id = r.range(0, 9); for a in 0..r.range(6, 12) { for b in 0..r.range(8, 12) { at.push(json!([id, a, b, r.range(1, 2)])); } } }
    put(&mut p, &[("at", json!(at)), ("sel", json!([0, 1, 2, 3, 1, 2, 3, 4][i % 8])), ("how", json!(r.below(6))), ("pick", json!(r.below(100))), ("seed_data", json!(r.next() >> 2)), ("seed_net", json!(r.next() >> 2)), ("best", json!(r.below(4) == 0)), ("snake", json!(r.below(2))), ("junk", json!(r.below(3)))]);
    p.sim.ncpu = r.range(1, 6) as u64; if i % 4 == 3 { p.sim.faults = faults(r, 'r', 60, &READ_KINDS); if r.chance(300) { p.sim.faults = faults(r, 's', 24, &STAT_KINDS); } } else if i % 4 == 1 { p.sim.sched_mode = 1; p.sim.preempt_pm = *r.pick(&[10, 100]); }
    p
}
pub fn run_sel(p: &Plan, cx: &mut Ctx) -> Res {
    let at: Vec<(usize, i64, i64, usize)> = p.list("at").iter().map(|e| (e[0].as_u64().unwrap_or(0) as usize % 10, e[1].as_i64().unwrap_or(0).max(0), e[2].as_i64().unwrap_or(0).max(0), e[3].as_u64().unwrap_or(1).max(1) as usize)).collect();
    let root = cx.root.clone(); let seed = p.i("seed_data") as u64; let sn = p.i("seed_net") as u64; let base = root.join("data").join(T3::name());
    let dir = |e: &(usize, i64, i64, usize)| base.join(format!("run-{}", IDS[e.0])).join(format!("lrn-{}", e.1)).join(format!("sp-{}", e.2));
    let mut at2 = vec![]; for e in at { if !at2.iter().any(|x| dir(x) == dir(&e)) { at2.push(e); } } let at = at2;
    let made = |e: &(usize, i64, i64, usize)| examples::<T3>(seed ^ hash_str(&format!("{:?}", (e.0, e.1, e.2))), e.3, true);
    for e in &at { std::fs::create_dir_all(dir(e)).map_err(h)?; }
    if p.i("junk") == 1 { let _ = std::fs::write(base.join(".DS_Store"), "x"); } if p.i("junk") == 2 { let d = root.join("data").join("backgammon").join("run-abc").join("lrn-0").join("sp-0"); let _ = std::fs::create_dir_all(&d); let _ = std::fs::write(d.join("ps.ot"), "not for tic-tac-toe"); }
    let cfg = Cfg { tbatch: 4096, lr: 0.001, wd: 0.0001, ..Default::default() };
    std::fs::write(root.join("config.toml"), cfg.toml()).map_err(h)?;
    let start = if p.i("best") != 0 { let b = best_path::<T3>(&root); std::fs::create_dir_all(b.parent().unwrap()).map_err(h)?; b } else { root.join("start.ot") }; net::<T3>(sn, 1.0, 0.5).vs.save(&start).map_err(h)?;
    cx.phase(&clean(p, 2), |ch, _| { let (c, at) = (cfg.clone(), at.clone()); let r = ch.sim(|| { let az = c.az::<T3>(None); for e in &at { az.save_training_data(&made(e), &dir(e)); } }); r.map_err(|m| Viol { class: "save".into(), msg: m }) })?;
    // the selection
    let sel = p.i("sel"); let how = p.i("how"); let e = at.get(p.u("pick") % at.len().max(1)).copied(); let mut a: Vec<String> = ["--game", "tic-tac-toe", "train"].iter().map(|s| s.to_string()).collect(); let mut opt = |f: &str, v: String| { a.push(flag(p, f)); a.push(v); };
    if p.i("best") == 0 { opt("--model-path", "start.ot".into()); } opt("--out-path", "out.ot".into());
    let (mut want, mut invalid): (Vec<(usize, i64, i64, usize)>, Option<String>) = (vec![], None);
    let id = |e: &(usize, i64, i64, usize)| IDS[e.0].to_string(); let some = e.unwrap_or((0, 0, 0, 1));
    if e.is_none() && sel < 4 { invalid = Some("no data at all".into()); }
    match sel {
        0 => want = at.clone(),
        1 => { opt("--run-id", id(&some)); want = at.iter().filter(|x| x.0 == some.0).copied().collect(); }
        2 => { opt("--run-id", id(&some)); opt("--learn", some.1.to_string()); want = at.iter().filter(|x| (x.0, x.1) == (some.0, some.1)).copied().collect(); }
        3 => { opt("--run-id", id(&some)); opt("--learn", some.1.to_string()); opt("--self-play", some.2.to_string()); want = at.iter().filter(|x| (x.0, x.1, x.2) == (some.0, some.1, some.2)).copied().collect(); }
        _ => invalid = Some(match how { 0 => { opt("--learn", "0".into()); "a learn iteration without a run" } 1 => { opt("--run-id", id(&some)); opt("--self-play", some.2.to_string()); "a self-play round without a learn iteration" } 2 => { opt("--self-play", "0".into()); "a self-play round without a run" } 3 => { opt("--run-id", "nosuchrun".into()); "a run that doesn't exist" } 4 => { opt("--run-id", id(&some)); opt("--learn", "77".into()); "a learn iteration that doesn't exist" } _ => { opt("--run-id", id(&some)); opt("--learn", some.1.to_string()); opt("--self-play", "88".into()); "a self-play round that doesn't exist" } }.to_string()),
    }
    let sim = SimCfg { cpu_s: 60, ..p.sim.clone() }; let before = tree(&root.join("data")); let o = cx.cli(&sim, "", &args(&a)); ended(&o)?; cx.out.nontrivial = true;
    let quiet = p.sim.faults.is_empty(); let out_file = root.join("out.ot"); let shown = format!("die-e {}", a.join(" "));
    let lay = at.iter().map(|e| format!("run-{}/lrn-{}/sp-{}: {}", IDS[e.0], e.1, e.2, e.3)).collect::<Vec<_>>();
    cx.out.sample = json!({"command": shown, "stored": lay, "exit": format!("{:?}", o.exit), "faults": format!("{:?}", p.sim.faults)}); cx.out.state(hash_str(&format!("{:?}{}", lay, shown)));
    if tree(&root.join("data")) != before { return bad("data-changed", format!("{} changed the stored data", shown)); }
    if let Some(w) = invalid { if o.exit == Exit::Ok || out_file.exists() { return bad("not-refused", format!("{}: {} is not refused ({:?}, stored: {})", shown, w, o.exit, lay.join(", "))); } cx.out.probe("refused"); return Ok(()); }
    if o.exit != Exit::Ok { if quiet { return bad("refused", format!("{} fails: {} (stored: {})", shown, short(&o, &root), lay.join(", "))); } cx.out.probe("failed with a read fault"); return Ok(()); }
    let got = match file_weights::<T3>(&out_file) { Ok(w) => w, Err(e) => return bad("no-model", format!("{} reports success, the model {}", shown, e)) };
    let v = cx.phase_raw(&clean(p, 5), |_, out| {
        let data: Vec<MemoryFragment> = want.iter().flat_map(|e| made(e)).collect(); let r = train_ref::<T3>(sn, 0.001, 0.0001, &data, &[(0..data.len()).collect()]); let (ok, n, worst) = agrees(&got, &r, 0.001, 1); out.probe_n("weights compared", n as u64); let _ = flatten;
        if !ok {
            // which set would explain it
            let sets: Vec<(&str, Vec<MemoryFragment>)> = vec![("all stored examples", at.iter().flat_map(|e| made(e)).collect()), ("the examples of one round", vec![made(&some)].into_iter().flatten().collect()), ("no examples", vec![])];
            let why = sets.iter().find(|(_, d)| if d.is_empty() { same_weights(&got, &weights(&net::<T3>(sn, 1.0, 0.5).vs)) } else { let r = train_ref::<T3>(sn, 0.001, 0.0001, d, &[(0..d.len()).collect()]); agrees(&got, &r, 0.001, 1).0 }).map_or("another set", |x| x.0);
            return viol("wrong-examples", format!("{} should train on {} examples of {}, but the model is not the one that gives (off by {:.1} tolerances; it fits {}; stored: {})", shown, data.len(), want.iter().map(|e| format!("run-{}/lrn-{}/sp-{}", IDS[e.0], e.1, e.2)).collect::<Vec<_>>().join(", "), worst, why, lay.join(", ")));
        }
        Ok(())
    })?; if let Some(v) = v.1.v { return Err(v.into()); } exit_ok(&v.0)?;
    cx.out.probe(["all data", "one run", "one iteration", "one round", "?"][sel.clamp(0, 4) as usize]); Ok(())
}

// ---------------------------------------------------------------- C25
/// What the runs of the program are that a property looks at (C25 at all of them).
fn kinds_for(prop: &str) -> &'static [i64] { match prop { "C16" => &[4], "C17" => &[2, 3, 0, 4, 1, 5], "C20" => &[2], "C21" | "C22" => &[0], "C23" => &[7, 0, 6], "C24" => &[6], _ => &[0, 1, 2, 3, 4, 5, 6, 7, 0, 1, 1, 3, 7, 6, 5, 8] } }
pub fn gen_cli(r: &mut Rng, prop: &str, thorough: bool, i: usize) -> Plan {
    let mut p = newplan(); let kinds = kinds_for(prop); let kind = kinds[i % kinds.len()];
    put(&mut p, &[("kind", json!(kind)), ("snake", json!(r.below(2))), ("conf", json!(r.below(2))), ("seed", json!(r.next() >> 2)), ("seed_net", json!(r.next() >> 2)), ("one", json!(r.range(0, 2))), ("two", json!(r.range(0, 2))), ("odd", json!(r.below(2))), ("how", json!(r.below(24))), ("case", json!(r.below(3))), ("game", json!((matches!(kind, 6 | 7) && i % 2 == 0 || kind == 0 && i % 32 == 16 && thorough) as i64)),
        ("learn", json!(if i % 32 == 2 { 2 } else { 1 })), ("sp", json!(r.range(1, 3))), ("n", json!(r.range(1, 4))), ("epochs", json!(r.range(0, 4))), ("limit", json!(r.range(1, 5))), ("iters", json!(r.range(2, 4))), ("start", json!(r.range(0, 2))), ("temp", json!(*r.pick(&[0.04, 30.0]))), ("dirs", json!(r.below(2))), ("cpus", json!(r.range(0, 8)))]);
    // what is wrong, where it has to do with models
    if prop == "C17" { match kind { 0 => put(&mut p, &[("one", json!(r.range(1, 2))), ("two", json!(2))]), 3 => put(&mut p, &[("how", json!(r.below(4)))]), 5 => put(&mut p, &[("how", json!(*r.pick(&[0, 5])))]), 1 => put(&mut p, &[("how", json!(r.range(7, 10)))]), 2 => put(&mut p, &[("start", json!(r.range(1, 2)))]), _ => {} } }
    p.sim.ncpu = r.range(1, 6) as u64;
    if matches!(kind, 0 | 2 | 4) && i % 3 == 1 { let n = r.range(1, 2); p.sim.faults = (0..n).map(|_| crate::sim::Fault { cls: 'm', idx: if kind == 0 { r.below(1600) } else { r.below(40) }, kind: r.pick(&["enospc", "eio", "eintr", "short", "kill", "eacces", "tornkill"]).to_string(), arg: r.next() >> 40 }).collect(); if r.chance(250) { p.sim.faults.clear(); p.sim.full_after = Some(r.below(if kind == 0 { 2_000_000 } else { 9_000_000 })); } }
    p
}
const KINDS: [&str; 9] = ["play", "play, invalid", "learn", "learn, invalid", "train", "train, invalid", "replay", "replay, invalid", "play, temperature"];
const AGENTS: [&str; 3] = ["random", "mcts", "model"];
fn agent_name(k: i64, case: i64) -> String { let s = AGENTS[k.clamp(0, 2) as usize]; match case { 1 => s.to_uppercase(), 2 => { let mut c = s.to_string(); c[..1].make_ascii_uppercase(); c } _ => s.to_string() } }
fn parity3(odd: bool) -> ResNet { let l: Vec<f32> = (0..9).map(|c| (if (c % 2 == 1) == odd { 9.0 } else { 0.0 }) + 0.01 * c as f32).collect(); net_const::<T3>(&l, 0.0) }
pub fn run_cli(p: &Plan, cx: &mut Ctx) -> Res {
    cx.out.sample = json!({"kind": KINDS[p.i("kind").clamp(0, 8) as usize]});
    match p.i("kind") { 0 | 8 => if p.i("game") == 1 { play::<Backgammon>(p, cx) } else { play::<T3>(p, cx) }, 1 => play_invalid(p, cx), 2 => learn(p, cx), 3 => learn_invalid(p, cx), 4 => train(p, cx), 5 => train_invalid(p, cx), 6 => if p.i("game") == 1 { replay::<Backgammon>(p, cx) } else { replay::<T3>(p, cx) }, _ => replay_invalid(p, cx) }
}
fn game_flag(g: i64) -> &'static str { if g == 1 { "backgammon" } else { "tic-tac-toe" } }
/// Program arguments before the command, with the configuration in place.
fn head(p: &Plan, root: &Path, toml: &str) -> Result<Vec<String>, Bad> {
    let mut a = vec![]; if p.i("conf") != 0 { std::fs::create_dir_all(root.join("etc")).map_err(h)?; std::fs::write(root.join("etc/my.toml"), toml).map_err(h)?; a.extend(["--config".to_string(), "etc/my.toml".to_string()]); } else { std::fs::write(root.join("config.toml"), toml).map_err(h)?; }
    a.extend(["--game".to_string(), game_flag(p.i("game")).to_string()]); let c = p.u("cpus"); if c >= 1 && c as u64 <= p.sim.ncpu { a.extend([flag(p, "--n-cpus"), c.to_string()]); a.iter_mut().for_each(|x| if x == "--n_cpus" { *x = "--n-cpus".into() }); } Ok(a)
}
/// The pool that works is as large as asked for, or half the machine.
fn pool(p: &Plan, cx: &mut Ctx, o: &CliOut) -> Res {
    let c = p.u("cpus") as u64; let given = c >= 1 && c <= p.sim.ncpu; let want = if given { c } else { (p.sim.ncpu / 2).max(1) }; let got = cx.shm.get().threads;
    if o.exit == Exit::Ok && got > 0 { if got != want { return bad("cpus", format!("on {} cpus, {}, the work is spread over {} threads instead of {}", p.sim.ncpu, if given { format!("{} asked for", c) } else { "none asked for".into() }, got, want)); } cx.out.probe(if given { "pool as asked for" } else { "pool of half the cpus" }); } Ok(())
}
fn note(cx: &mut Ctx, p: &Plan, a: &[String], o: &CliOut) { let s = format!("die-e {}", a.join(" ")); cx.out.nontrivial = true; cx.out.state(hash_str(&format!("{}{:?}{:?}", s, p.sim.faults, p.sim.full_after))); cx.out.probe(&format!("{}: {}", KINDS[p.i("kind").clamp(0, 8) as usize], if o.exit == Exit::Ok { "done" } else { "ended with an error" })); cx.out.sample = json!({"command": s, "exit": format!("{:?}", o.exit), "faults": format!("{:?} full_after {:?}", p.sim.faults, p.sim.full_after)}); }

fn play<G: LearnableGame>(p: &Plan, cx: &mut Ctx) -> Res {
    let root = cx.root.clone(); let temp_test = p.i("kind") == 8; let bg = p.i("game") == 1; let (one, two) = if bg { (0, 0) } else if temp_test { (2, 0) } else { (p.i("one"), p.i("two")) }; let odd = p.i("odd") != 0;
    let cfg = Cfg { iters: if temp_test { 12 } else { p.i("iters").max(2) }, c: if one == 1 || two == 1 { 1.4 } else { 1000.0 }, eps: 0.0, limit: 400, temperature: if temp_test { p.f("temp").max(0.01) } else { 1.0 }, ..Default::default() };
    let cfg = if (one == 1 || two == 1) && (one == 2 || two == 2) { Cfg { c: 1000.0, ..cfg } } else { cfg };
    let mut a = head(p, &root, &cfg.toml())?; a.push("play".into()); let out = root.join("won games"); std::fs::create_dir_all(&out).map_err(h)?;
    let models = [root.join("one.ot"), root.join("two.ot")];
    if temp_test { let l: Vec<f32> = (0..9).map(|c| [1.2f32, 0.4, 0.3, 0.2, 0.1, 0.0, 0.25, 0.35, 0.15][(c + p.u("seed") % 9) % 9]).collect(); net_const::<T3>(&l, 0.0).vs.save(&models[0]).map_err(h)?; }
    else { if one == 2 { parity3(odd).vs.save(&models[0]).map_err(h)?; } if two == 2 { parity3(!odd).vs.save(&models[1]).map_err(h)?; } }
    let mut opt = |f: &str, v: &str| { a.push(flag(p, f)); a.push(v.to_string()); };
    opt("--agent-one", &agent_name(one, p.i("case"))); opt("--agent-two", &agent_name(two, p.i("case"))); if one == 2 { opt("--model-path-one", "one.ot"); } if two == 2 { opt("--model-path-two", "two.ot"); } opt("--output-path", "won games");
    let before = tree(&root); let sim = SimCfg { cpu_s: 60, ..p.sim.clone() }; let o = cx.cli(&sim, "", &args(&a)); ended(&o)?; note(cx, p, &a, &o);
    let faultless = cx.stats_faultless(); let shown = format!("die-e {}", a.join(" "));
    if o.exit != Exit::Ok { if faultless { return bad("fails", format!("{} fails: {}", shown, short(&o, &root))); } cx.out.probe("play stopped by a fault"); return Ok(()); }
    for (f, x) in tree(&root) { if f.starts_with(&out) { continue; } if before.get(&f) != Some(&x) { return bad("other-files", format!("{} left or changed {}", shown, f.strip_prefix(&root).unwrap_or(&f).display())); } }
    let want = [agent_of(one), agent_of(two)]; let stdout = o.stdout.clone(); let (odd2, temp) = (odd, cfg.temperature);
    let dirs = out.clone(); let p2 = p.clone();
    let (e, r, _) = cx.phase_raw(&clean(p, 7), |ch, oo| {
        let files = files_below(&dirs); let extra = files.iter().filter(|f| f.extension().map_or(true, |x| x != "json")).count(); ensure!(extra == 0 || !faultless, "other-files", "{} left {} files that are not games in the output directory", shown, extra);
        let games: Vec<Game<G>> = match ch.sim(|| load_all_games::<G>(dirs.clone()).map_err(|e| e.to_string())) { Ok(Ok(g)) => g, Ok(Err(e)) | Err(e) => return viol("unreadable", format!("{} reports success, but its games don't load: {}", shown, e.chars().take(120).collect::<String>())) };
        ensure!(games.len() == 400, "games", "{} reports success and leaves {} games of 400", shown, games.len());
        let (mut w1, mut w2) = (0, 0); let mut first: BTreeMap<u32, u32> = BTreeMap::new();
        for g in &games {
            let v = serde_json::to_value(g).unwrap(); ensure!(v["player1"] == json!(want[0]) && v["player2"] == json!(want[1]), "players", "{}: a saved game names the players {} and {}", shown, v["player1"], v["player2"]);
            let last = match g.turns.last() { Some(t) => t, None => return viol("no-turns", format!("{}: a saved game has no turns", shown)) };
            let win = last.state.check_winner(); match win { Some(-1) => w1 += 1, Some(1) => w2 += 1, _ => {} }
            let named = match win { Some(-1) => &want[0], Some(1) => &want[1], _ => &Agent::None }; ensure!(g.winner == *named, "winner", "{}: a saved game names {:?} as the winner, it was {:?}", shown, g.winner, named);
            let mut s: G = match serde_json::from_value(v["initial_state"].clone()) { Ok(s) => s, Err(_) => return viol("start", format!("{}: a saved game holds no initial state", shown)) };
            if p2.i("kind") == 8 && s.get_player() == -1 { *first.entry(s.encode(&g.turns[0].action)).or_default() += 1; }
            for t in &g.turns {
                let legal: Vec<u32> = s.get_valid_moves().iter().map(|m| s.encode(m)).collect(); let side = (s.get_player() == 1) as usize; let kind = [one, two][side];
                if t.action == G::EMPTY_MOVE { ensure!(legal.is_empty(), "passed", "{}: a saved game has a pass with {} plays", shown, legal.len()); } else {
                    let c = s.encode(&t.action); ensure!(legal.contains(&c), "illegal", "{}: a saved game has an illegal play", shown);
                    if kind == 2 && p2.i("kind") == 0 { let mine = if side == 0 { odd2 } else { !odd2 }; if legal.iter().any(|c| (c % 2 == 1) == mine) { ensure!((c % 2 == 1) == mine, "other-model", "{}: player {} made a play its model would never choose", shown, side + 1); oo.probe("model told apart"); } }
                }
                s = t.state;
            }
        }
        for (k, n) in [("Wins Player 1: ", w1), ("Wins Player 2: ", w2)] { if let Some(x) = stdout.lines().find_map(|l| l.trim().strip_prefix(k)).and_then(|x| x.trim().parse::<u32>().ok()) { ensure!(x == n, "printed", "{} prints \"{}{}\", the saved games have {}", shown, k, x, n); oo.probe("printed counts compared"); } }
        if p2.i("kind") == 8 { let n: u32 = first.values().sum(); let top = first.values().copied().max().unwrap_or(0); ensure!(n >= 100, "halves", "{}: player 1 started {} games", shown, n); if temp < 0.5 { ensure!(top * 100 >= n * 99, "temperature", "{} with temperature {}: the most visited opening was played in {} of {} games", shown, temp, top, n); } else { ensure!(top * 2 <= n, "temperature", "{} with temperature {}: the same opening was played in {} of {} games", shown, temp, top, n); } oo.probe("temperature reached the agent"); }
        oo.probe_n("saved games checked", games.len() as u64); Ok(())
    })?;
    if let Some(v) = r.v { return Err(v.into()); } exit_ok(&e)?; Ok(())
}
fn agent_of(k: i64) -> Agent { crate::scen_match::agent(k) }
/// One thing missing or invalid; what it is comes back.
fn spoil_config(toml: &str, how: i64, needed: &[&str]) -> (String, String) {
    let k = needed[(how as usize / 4) % needed.len()]; let lines: Vec<&str> = toml.lines().collect(); let is = |l: &&&str| l.starts_with(&format!("{} =", k)); let int = ["learn_iterations", "num_epochs", "training_batch_size", "self_play_iterations", "num_self_play_batches", "iterations", "simulate_round_limit"].contains(&k);
    let (new, what) = match how % 4 { 0 => (None, "is missing".to_string()), 1 => (Some(format!("{} = \"many\"", k)), "is a word".into()), 2 if int => (Some(format!("{} = -3", k)), "is negative".into()), 2 => (Some(format!("{} = [1, 2]", k)), "is a list".into()), _ => (Some(format!("{} = ", k)), "has no value".into()) };
    let mut v: Vec<String> = vec![]; for l in &lines { if is(&l) { if let Some(n) = &new { v.push(n.clone()); } } else { v.push(l.to_string()); } } (v.join("\n") + "\n", format!("{} {}", k, what))
}
fn refused(p: &Plan, cx: &mut Ctx, a: &[String], what: &str, results: &[PathBuf]) -> Res {
    let root = cx.root.clone(); let o = cx.cli(&SimCfg { cpu_s: 60, ..p.sim.clone() }, "", &args(a)); ended(&o)?; note(cx, p, a, &o); let shown = format!("die-e {}", a.join(" "));
    if o.exit == Exit::Ok { return bad("not-refused", format!("{} ends without an error, though {}", shown, what)); }
    for f in results { if f.exists() && !f.is_dir() { return bad("result-of-refused", format!("{} ends with an error ({}), but leaves {}", shown, what, f.strip_prefix(&root).unwrap_or(f).display())); } }
    cx.out.probe(&format!("refused: {}", if what.contains(" = ") { "configuration" } else { what })); Ok(())
}
fn save3(f: &Path, seed: u64) -> Result<(), Bad> { net::<T3>(seed, 1.0, 0.5).vs.save(f).map_err(h) }
fn play_invalid(p: &Plan, cx: &mut Ctx) -> Res {
    let root = cx.root.clone(); let how = p.i("how"); let cfg = Cfg { iters: 2, ..Default::default() }; let needed = ["temperature", "iterations", "exploration_const", "simulate_round_limit", "dirichlet_alpha", "dirichlet_epsilon"];
    let mut toml = cfg.toml(); let mut what = String::new(); if how >= 14 { let (t, w) = spoil_config(&toml, p.i("seed") % 24, &needed); toml = t; what = w; }
    let mut a = head(p, &root, &toml)?; let out = root.join("games"); std::fs::create_dir_all(&out).map_err(h)?; std::fs::write(root.join("afile"), "x").map_err(h)?; save3(&root.join("m.ot"), 3)?; std::fs::write(root.join("broken.ot"), "PK\u{3}\u{4}nothing").map_err(h)?; { let b = std::fs::read(root.join("m.ot")).map_err(h)?; std::fs::write(root.join("cut.ot"), &b[..b.len() * 2 / 3]).map_err(h)?; }
    net::<ToyD>(3, 1.0, 0.5).vs.save(root.join("other.ot")).map_err(h)?;
    let (mut one, mut two, mut m1, mut m2, mut op): (Option<&str>, Option<&str>, Option<&str>, Option<&str>, Option<&str>) = (Some("random"), Some("random"), None, None, Some("games"));
    match how {
        0 => { one = None; what = "agent one is missing".into(); } 1 => { two = None; what = "agent two is missing".into(); } 2 => { one = Some("alphabeta"); what = "agent one is unknown".into(); } 3 => { two = Some("modell"); what = "agent two is unknown".into(); }
        4 => { op = None; what = "no output path is given".into(); } 5 => { op = Some("nodir"); what = "the output path doesn't exist".into(); } 6 => { op = Some("afile"); what = "the output path is a file".into(); }
        7 | 8 => { let (a1, b1) = [(("model", None), ("random", None)), (("model", None), ("model", Some("m.ot"))), (("model", None), ("random", Some("m.ot"))), (("random", Some("m.ot")), ("model", None)), (("model", Some("m.ot")), ("model", None)), (("random", None), ("model", None))][p.u("seed") % 6]; one = Some(a1.0); m1 = a1.1; two = Some(b1.0); m2 = b1.1; what = "a model's file is missing".into(); } 9 => { two = Some("model"); m2 = Some("none.ot"); what = "the model doesn't exist".into(); } 10 => { one = Some("model"); m1 = Some(["broken.ot", "cut.ot", "other.ot", "games"][p.u("seed") % 4]); what = "the model file is no model of the game".into(); }
        11 => { a.extend([flag(p, "--n-cpus").replace("n_cpus", "n-cpus"), (p.sim.ncpu + 1).to_string()]); a.retain({ let mut seen = false; move |x| { let _ = &mut seen; let _ = x; true } }); what = "more cpus are asked for than there are".into(); }
        12 => { if let Some(g) = a.iter_mut().find(|x| *x == "tic-tac-toe") { *g = "chess".into(); } what = "the game is unknown".into(); }
        13 => { if p.i("conf") != 0 { let _ = std::fs::remove_file(root.join("etc/my.toml")); } else { let _ = std::fs::remove_file(root.join("config.toml")); } what = "there is no configuration".into(); }
        _ => {}
    }
    if how == 11 { let keep: Vec<String> = { let mut v = vec![]; let mut i = 0; let n = a.len(); while i < n { if a[i] == "--n-cpus" && i + 2 < n { i += 2; } else { v.push(a[i].clone()); i += 1; } } v }; a = keep; }
    a.push("play".into()); for (f, v) in [("--agent-one", one), ("--model-path-one", m1), ("--agent-two", two), ("--model-path-two", m2), ("--output-path", op)] { if let Some(v) = v { a.push(flag(p, f)); a.push(v.into()); } }
    refused(p, cx, &a, &what, &[])?; if let Some(f) = files_below(&out).first() { return bad("result-of-refused", format!("play is refused ({}), but leaves {}", what, f.file_name().unwrap().to_string_lossy().len())); } Ok(())
}
fn learn_toml(p: &Plan) -> (Cfg, usize, usize, usize, usize) { let (l, s, n, lim) = (p.u("learn").max(1), p.u("sp").max(1), p.u("n").max(1), p.u("limit").clamp(1, 5)); (Cfg { temperature: 1.0, learn: l as i64, epochs: p.i("epochs"), tbatch: 512, sp: s as i64, nsp: n as i64, iters: p.i("iters").max(2), c: 2.0, limit: lim as i64, alpha: 0.3, eps: 0.25, wd: 0.0, lr: 0.0 }, l, s, n, lim) }
fn running(w: &Ws) -> impl Iterator<Item = &(String, Vec<f32>)> { w.iter().filter(|x| x.0.contains("running")) }
fn learn(p: &Plan, cx: &mut Ctx) -> Res {
    let root = cx.root.clone(); let (cfg, l, s, n, lim) = learn_toml(p); let mut a = head(p, &root, &cfg.toml())?; a.push("learn".into()); let sn = p.i("seed_net") as u64; let start = p.i("start");
    if start == 1 { save3(&root.join("given.ot"), sn)?; a.extend([flag(p, "--model-path"), "given.ot".into()]); } if start == 2 { let b = best_path::<T3>(&root); std::fs::create_dir_all(b.parent().unwrap()).map_err(h)?; save3(&b, sn)?; }
    if start > 0 && p.i("odd") != 0 { let b = best_path::<T3>(&root); let d = b.parent().unwrap(); std::fs::create_dir_all(d).map_err(h)?; for f in ["trained_model.ot", "model_9.ot"] { save3(&d.join(f), sn ^ 0x5555)?; } }
    if p.i("dirs") != 0 { let _ = std::fs::create_dir_all(root.join("models/tictactoe")); let _ = std::fs::create_dir_all(root.join("data")); }
    let o = cx.cli(&SimCfg { cpu_s: 60, ..p.sim.clone() }, "", &args(&a)); ended(&o)?; note(cx, p, &a, &o); let shown = format!("die-e {}", a.join(" ")); let faultless = cx.stats_faultless();
    if o.exit != Exit::Ok { if faultless { return bad("fails", format!("{} fails: {}", shown, short(&o, &root))); } cx.out.probe("learn stopped by a fault"); return Ok(()); }
    if !faultless && reports_failure(&text(&o)) { cx.out.probe("learn reported a failure"); return Ok(()); }
    let base = root.join("data").join(T3::name()); let runs: Vec<PathBuf> = dirs_below(&base).into_iter().filter(|d| d.parent() == Some(&base)).filter(|d| d.join("lrn-0").is_dir()).collect(); if runs.len() != 1 { return bad("runs", format!("{} leaves {} runs with data", shown, runs.len())); } let run = runs[0].clone();
    for (k, want) in [("lrn-", l), ("sp-", l * s)] { let c = dirs_below(&run).iter().filter(|d| d.file_name().unwrap().to_string_lossy().starts_with(k)).count(); if c != want { return bad("config", format!("{} with {} iterations of {} rounds leaves {} directories {}*", shown, l, s, c, k)); } }
    let models = root.join("models").join(T3::name()); let p2 = p.clone();
    let (e, r, _) = cx.phase_raw(&clean(p, 8), |_, out| {
        let mut first: Vec<MemoryFragment> = vec![];
        for i in 0..l { for j in 0..s { let d = run.join(format!("lrn-{}", i)).join(format!("sp-{}", j)); let got = match std::panic::catch_unwind(|| AlphaZero::load_training_data(&d)) { Ok(g) => g, Err(_) => return viol("data", format!("{} reports success, but the examples of iteration {} round {} can't be loaded", shown, i, j)) }; ensure!(got.len() == n * lim, "config", "{}: {} games limited to {} rounds make {} examples, iteration {} round {} has {}", shown, n, lim, n * lim, i, j, got.len()); if i == 0 { first.extend(got); } } }
        let mut ws = vec![]; for i in 0..l { match file_weights::<T3>(&models.join(format!("model_{}.ot", i))) { Ok(w) => ws.push(w), Err(e) => return viol("checkpoint", format!("{} reports success, the checkpoint of iteration {}: {}", shown, i, e)) } }
        let best = match file_weights::<T3>(&models.join("best_model.ot")) { Ok(w) => w, Err(e) => return viol("best", format!("{} reports success, the best model: {}", shown, e)) };
        let origin = weights(&net::<T3>(sn, 1.0, 0.5).vs); let plain = |w: &Ws| -> Ws { w.iter().filter(|x| !x.0.contains("running")).cloned().collect() };
        // learning rate 0: only the running statistics move, once per pass over the examples of the iteration
        if start > 0 { for w in &ws { ensure!(same_weights(&plain(w), &plain(&origin)), "config", "{} with learning rate 0 {} weights differ from the model it {}", shown, "ends with a model whose", if start == 1 { "was given" } else { "found as best" }); } }
        let m = ResNet::new::<T3>(VarStore::new(Device::Cpu)); tch::no_grad(|| { let src: BTreeMap<String, Vec<f32>> = ws[0].iter().cloned().collect(); let o: BTreeMap<String, Vec<f32>> = origin.iter().cloned().collect(); for (k, mut t) in m.vs.variables() { let key = format!("{}{:?}", k, t.size()); let v = if key.contains("running") { if start > 0 { o[&key].clone() } else if key.contains("var") { vec![1.0; t.numel()] } else { vec![0.0; t.numel()] } } else { src[&key].clone() }; let size = t.size(); t.copy_(&Tensor::from_slice(&v).view(size.as_slice())); } });
        let xs = Tensor::concat(&first.iter().map(|f| if f.state.dim() == 3 { f.state.unsqueeze(0) } else { f.state.shallow_clone() }).collect::<Vec<_>>(), 0);
        tch::no_grad(|| for _ in 0..p2.i("epochs").max(0) { let _ = m.forward_train(&xs, true); }); let want = weights(&m.vs);
        let (mut worst, mut cnt) = (0f32, 0); for (x, y) in running(&ws[0]).zip(running(&want)) { for (u, v) in x.1.iter().zip(&y.1) { let d = (u - v).abs() / (1e-3 * (v.abs() + 0.05)); if d.is_nan() { worst = f32::INFINITY; } worst = worst.max(d); cnt += 1; } }
        ensure!(worst <= 1.0, "config", "{} with {} epochs: the running statistics of the first checkpoint differ from {} passes over the {} examples by {:.1} tolerances", shown, p2.i("epochs"), p2.i("epochs"), first.len(), worst); out.probe_n("statistics compared", cnt); if p2.i("epochs") > 0 { out.probe("epochs counted"); }
        if start != 2 && l == 1 { ensure!(same_weights(&best, &ws[0]), "best", "{}: no best model existed, the first checkpoint should be it", shown); } Ok(())
    })?;
    if let Some(v) = r.v { return Err(v.into()); } exit_ok(&e)?; Ok(())
}
fn learn_invalid(p: &Plan, cx: &mut Ctx) -> Res {
    let root = cx.root.clone(); let (cfg, ..) = learn_toml(p); let how = p.i("how") % 12; let needed = ["temperature", "learn_iterations", "self_play_iterations", "num_epochs", "training_batch_size", "num_self_play_batches", "iterations", "exploration_const", "simulate_round_limit", "dirichlet_alpha", "dirichlet_epsilon", "wd", "lr"];
    let mut toml = cfg.toml(); let mut what = String::new(); if how >= 5 { let (t, w) = spoil_config(&toml, p.i("seed") % 52, &needed); toml = t; what = w; }
    let mut a = head(p, &root, &toml)?; a.push("learn".into()); let mp = flag(p, "--model-path");
    match how { 0 => { a.extend([mp, "none.ot".into()]); what = "the model doesn't exist".into(); } 1 => { std::fs::write(root.join("broken.ot"), "nothing").map_err(h)?; a.extend([mp, "broken.ot".into()]); what = "the model file is broken".into(); } 2 => { let b = best_path::<T3>(&root); std::fs::create_dir_all(b.parent().unwrap()).map_err(h)?; std::fs::write(&b, "nothing").map_err(h)?; what = "the best model is broken".into(); } 3 => { net::<ToyD>(3, 1.0, 0.5).vs.save(root.join("other.ot")).map_err(h)?; a.extend([mp, "other.ot".into()]); what = "the model is of another game".into(); } 4 => { a.extend(["--modelpath".into(), "x.ot".into()]); what = "an option is unknown".into(); } _ => {} }
    refused(p, cx, &a, &what, &[root.join("models/tictactoe/model_0.ot")])
}
fn prepare_train(p: &Plan, cx: &mut Ctx, n: usize) -> Result<(), Bad> {
    let root = cx.root.clone(); let d = root.join("data/tictactoe/run-abc/lrn-0/sp-0"); std::fs::create_dir_all(&d).map_err(h)?; save3(&root.join("start.ot"), p.i("seed_net") as u64)?;
    cx.phase(&clean(p, 2), |ch, _| { let seed = p.i("seed") as u64; let r = ch.sim(|| { let az = Cfg::default().az::<T3>(None); az.save_training_data(&examples::<T3>(seed, n, true), &d) }); r.map_err(|m| Viol { class: "save".into(), msg: m }) })?; Ok(())
}
fn train(p: &Plan, cx: &mut Ctx) -> Res {
    let root = cx.root.clone(); let n = 2 + p.u("n") * 3; prepare_train(p, cx, n)?; let small = p.u("how") >= 16; let tb = if small { 1 + p.u("how") % 4 } else { 64 };
    let (lr, wd) = if small { (1e-7, 0.0) } else { ([0.001, 0.01, 0.03][p.u("how") % 3], [0.0, 0.01, 0.3][p.u("how") / 3 % 3]) }; let cfg = Cfg { tbatch: tb as i64, lr, wd, ..Default::default() };
    let mut a = head(p, &root, &cfg.toml())?; a.push("train".into()); let sn = p.i("seed_net") as u64; let models = root.join("models/tictactoe"); let start = p.i("start");
    // where it starts: from the model named, from the best model, or from nothing; other models lie about
    let given = p.i("case") > 0; if p.i("dirs") != 0 || given || start > 0 { let _ = std::fs::create_dir_all(&models); }
    let mut origin: Option<Ws> = None; let place = match start { 0 => Some(root.join("start.ot")), 1 => Some(best_path::<T3>(&root)), _ => None };
    if let Some(f) = place { let m = net::<T3>(sn, 1.0, 0.5); if small { let w: Ws = weights(&m.vs).into_iter().map(|(n, mut v)| { if n.contains("running_mean") { v[0] += 1000.0; } (n, v) }).collect(); set_weights(&m.vs, &w); } m.vs.save(&f).map_err(h)?; origin = Some(weights(&m.vs)); }
    if start > 0 { for f in ["trained_model.ot", "model_0.ot"] { let m = net::<T3>(sn ^ 0x5555, 1.0, 0.5); let w: Ws = weights(&m.vs).into_iter().map(|(n, v)| (n, v.iter().map(|x| x + 5.0).collect())).collect(); set_weights(&m.vs, &w); m.vs.save(models.join(f)).map_err(h)?; } } else { a.extend([flag(p, "--model-path"), "start.ot".into()]); }
    a.extend([flag(p, "--run-id"), "abc".into()]);
    let out = if given { a.extend([flag(p, "--out-path"), "trained.ot".into()]); root.join("trained.ot") } else { models.join("trained_model.ot") };
    let before = tree(&root); let o = cx.cli(&SimCfg { cpu_s: 60, ..p.sim.clone() }, "", &args(&a)); ended(&o)?; note(cx, p, &a, &o); let shown = format!("die-e {}", a.join(" ")); let faultless = cx.stats_faultless();
    if o.exit != Exit::Ok { if faultless && (given || p.i("dirs") != 0 || start > 0) { return bad("fails", format!("{} fails: {}", shown, short(&o, &root))); } cx.out.probe("train ended with an error"); return Ok(()); }
    let got = match file_weights::<T3>(&out) { Ok(w) => w, Err(e) => return bad("no-model", format!("{} reports success, its model: {}", shown, e)) };
    for (f, x) in tree(&root) { if f != out && before.get(&f) != Some(&x) && faultless { return bad("other-files", format!("{} left or changed {}", shown, f.strip_prefix(&root).unwrap_or(&f).display())); } }
    let origin = match origin { Some(o) => o, None => { cx.out.probe("train from nothing"); // every weight of the files lying about is about 5 more than a fresh one
            let near = got.iter().filter(|x| !x.0.contains("running") && !x.0.contains("bn")).flat_map(|x| &x.1).filter(|x| (**x - 5.0).abs() < 2.5).count(); let all: usize = got.iter().filter(|x| !x.0.contains("running")).map(|x| x.1.len()).sum(); if near * 2 > all { return bad("config", format!("{} without a best model starts from another file", shown)); } return Ok(()); } };
    cx.out.probe(if start == 0 { "train from the model named" } else { "train from the best model" });
    let (e, r, _) = cx.phase_raw(&clean(p, 5), |_, oo| { let data = examples::<T3>(p.i("seed") as u64, n, true);
        if small { let (k, exact) = crate::scen_whole::batches_used::<T3>(&origin, &got, &data, tb, 1).map_err(|m| Viol { class: "wrong-model".into(), msg: format!("{} ({} examples in batches of {}): {}", shown, n, tb, m) })?; oo.probe_n("training steps counted", k as u64); if exact { oo.probe("order of the examples found"); } return Ok(()); }
        let r = train_ref::<T3>(sn, lr, wd, &data, &[(0..n).collect()]); let (ok, c, worst) = agrees(&got, &r, lr, 1); oo.probe_n("weights compared", c as u64); ensure!(ok, "wrong-model", "{} (lr {}, wd {}): the model is not the one a pass over its {} examples gives, off by {:.1} tolerances", shown, lr, wd, n, worst); Ok(()) })?;
    if let Some(v) = r.v { return Err(v.into()); } exit_ok(&e)?; Ok(())
}
fn train_invalid(p: &Plan, cx: &mut Ctx) -> Res {
    let root = cx.root.clone(); prepare_train(p, cx, 3)?; let how = p.i("how") % 12; let needed = ["training_batch_size", "wd", "lr", "num_epochs", "temperature"]; let mut toml = Cfg::default().toml(); let mut what = String::new(); if how >= 6 { let (t, w) = spoil_config(&toml, p.i("seed") % 20, &needed); toml = t; what = w; }
    let mut a = head(p, &root, &toml)?; a.push("train".into()); let (mut m, mut out, mut run) = ("start.ot", "out.ot", "abc");
    match how { 0 => { m = "none.ot"; what = "the model doesn't exist".into(); } 1 => { out = "nodir/out.ot"; what = "the output directory doesn't exist".into(); } 2 => { run = "nosuch"; what = "the run doesn't exist".into(); } 3 => { std::fs::write(root.join("data/tictactoe/run-abc/lrn-0/sp-0/states.ot"), "nothing").map_err(h)?; what = "the stored examples are damaged".into(); } 4 => { std::fs::create_dir_all(root.join("adir")).map_err(h)?; out = "adir"; what = "the output path is a directory".into(); } 5 => { std::fs::write(root.join("broken.ot"), "nothing").map_err(h)?; m = "broken.ot"; what = "the model file is broken".into(); } _ => {} }
    a.extend([flag(p, "--model-path"), m.into(), flag(p, "--out-path"), out.into(), flag(p, "--run-id"), run.into()]);
    refused(p, cx, &a, &what, &[root.join("out.ot"), root.join("nodir/out.ot")])
}
pub fn made_game<G: LearnableGame>(seed: u64, turns: usize) -> (Game<G>, Vec<String>) {
    let mut r = Rng::new(seed); let mut s = G::new(); if !G::IS_DETERMINISTIC { s.roll_die(); } let mut g = Game::new(Agent::Random, Agent::Mcts, s); let mut pos = vec![s.to_pretty_str()];
    for _ in 0..turns { if s.check_winner().is_some() { break; } let v = s.get_valid_moves(); let side = s.get_player(); let m = if v.is_empty() { s.skip_turn(); G::EMPTY_MOVE } else { let m = r.pick(&v).clone(); s.apply_move(&m); m }; g.turns.push(Turn { action: m, player: if side == -1 { Agent::Random } else { Agent::Mcts }, state: s }); pos.push(s.to_pretty_str()); }
    g.winner = match s.check_winner() { Some(-1) => Agent::Random, Some(1) => Agent::Mcts, _ => Agent::None }; (g, pos)
}
fn put_game<G: LearnableGame>(p: &Plan, cx: &mut Ctx) -> Result<(PathBuf, Vec<String>), Bad> {
    let d = cx.root.join("games"); std::fs::create_dir_all(&d).map_err(h)?; let (seed, turns) = (p.i("seed") as u64, [1, 5, 40, 400][p.u("seed") % 4]); let d2 = d.clone();
    let o = cx.phase(&clean(p, 2), |ch, out| { let r = ch.sim(|| { let (g, pos) = made_game::<G>(seed, turns); save_game(&g, d2.to_str().unwrap()).map_err(|e| e.to_string())?; Ok::<_, String>(pos) }); match r { Ok(Ok(pos)) => { out.data = json!(pos); Ok(()) } Ok(Err(m)) | Err(m) => viol("save", m) } })?;
    let f = files_below(&d).into_iter().find(|f| f.extension().map_or(false, |x| x == "json")); match f { Some(f) => Ok((f, o.data.as_array().cloned().unwrap_or_default().iter().map(|x| x.as_str().unwrap_or("").to_string()).collect())), None => bad("save", "save_game left no game") }
}
fn replay<G: LearnableGame>(p: &Plan, cx: &mut Ctx) -> Res {
    let root = cx.root.clone(); let (f, pos) = put_game::<G>(p, cx)?; let mut a = head(p, &root, &Cfg::default().toml())?; a.push("replay".into()); a.extend([flag(p, "--game-path"), f.strip_prefix(&root).unwrap().to_str().unwrap().to_string()]);
    let keys = "\n".repeat(if p.i("case") == 0 { 0 } else { pos.len() }); let before = tree(&root); let o = cx.cli(&SimCfg { cpu_s: 60, ..p.sim.clone() }, &keys, &args(&a)); ended(&o)?; note(cx, p, &a, &o); pool(p, cx, &o)?; let shown = "die-e replay";
    if o.exit != Exit::Ok { return bad("fails", format!("{} of a saved game of {} turns fails: {}", shown, pos.len() - 1, short(&o, &root))); } if tree(&root) != before { return bad("other-files", format!("{} changes files", shown)); }
    let mut at = 0; for (j, s) in pos.iter().enumerate() { match o.stdout[at..].find(s.trim_end()) { Some(x) => at += x + s.trim_end().len(), None => return bad("replay", format!("{} of a game of {} turns doesn't show the position after turn {}", shown, pos.len() - 1, j)) } }
    cx.out.probe_n("positions shown", pos.len() as u64); Ok(())
}
fn replay_invalid(p: &Plan, cx: &mut Ctx) -> Res {
    let root = cx.root.clone(); let (f, _) = if p.i("game") == 1 { put_game::<Backgammon>(p, cx)? } else { put_game::<T3>(p, cx)? }; let mut g = f.strip_prefix(&root).unwrap().to_str().unwrap().to_string(); let mut a = head(p, &root, &Cfg::default().toml())?; a.push("replay".into()); let what;
    match p.i("how") % 6 { 0 => { g = "games/none.json".into(); what = "the game doesn't exist"; } 1 => { let b = std::fs::read(&f).map_err(h)?; std::fs::write(&f, &b[..(p.u("seed") / 5) % b.len().saturating_sub(2).max(1)]).map_err(h)?; what = "the game file is cut short"; } 2 => { g = "games".into(); what = "the path is a directory"; } 3 => { std::fs::write(&f, "{\"id\": \"x\"}").map_err(h)?; what = "the file holds no game"; } 4 => { std::fs::write(&f, "").map_err(h)?; what = "the file is empty"; } _ => { g = String::new(); what = "no game is named"; } }
    if !g.is_empty() { a.extend([flag(p, "--game-path"), g]); } refused(p, cx, &a, what, &[])
}

// ---------------------------------------------------------------- C29
const RATES: [f64; 8] = [f64::NAN, f64::INFINITY, 1e38, 1e30, 1e20, 1e12, 1e5, 0.001];
pub fn gen_div(r: &mut Rng, _p: &str, _t: bool, i: usize) -> Plan {
    let mut p = newplan(); crate::scen_search::gen_toy(r, &mut p, (1, 3)); let one = r.chance(600); // one step only: nothing but the weights shows what happened
    put(&mut p, &[("kind", json!([0, 2, 0, 1][i % 4])), ("lr", json!(if i % 16 == 3 { 7 } else { r.range(0, 7) })), ("wd", json!(if r.chance(250) { r.range(1, 3) } else { 0 })), ("epochs", json!(if one { 1 } else { r.range(1, 3) })), ("tbatch", json!(if one { 4096 } else { r.range(1, 8) })), ("learn", json!(r.range(1, 2))), ("n", json!(r.range(1, 4))), ("start", json!(r.range(0, 1))), ("toy_inf", json!(0)), ("toy_pass", json!(0)), ("toy_win", json!(1)), ("toy_k_win", json!(400)), ("toy_len_min", json!(1)), ("toy_len_max", json!(2)),
        ("seed", json!(r.next() >> 2)), ("seed_net", json!(r.next() >> 2)), ("snake", json!(r.below(2))), ("conf", json!(r.below(2))), ("cpus", json!(0))]);
    p.sim.ncpu = r.range(1, 4) as u64; p
}
fn nans(w: &Ws) -> usize { w.iter().flat_map(|x| &x.1).filter(|x| x.is_nan()).count() }
pub fn run_div(p: &Plan, cx: &mut Ctx) -> Res {
    let root = cx.root.clone(); let (lr, wd) = (RATES[p.u("lr") % 8], [0.0, f64::NAN, f64::INFINITY, 1e38][p.u("wd") % 4]); let sound = p.u("lr") % 8 == 7 && p.u("wd") % 4 == 0; let kind = p.i("kind");
    let cfg = Cfg { lr, wd, epochs: p.i("epochs").max(1), tbatch: p.i("tbatch").max(1), learn: p.i("learn").clamp(1, 2), sp: 1, nsp: p.i("n").max(1), iters: 2, limit: 6, ..Default::default() };
    let ok; let stored: Vec<PathBuf>;
    if kind == 2 {
        prepare_train(p, cx, 2 + p.u("n") * 3)?; let mut a = head(p, &root, &cfg.toml())?; a.push("train".into()); a.extend([flag(p, "--model-path"), "start.ot".into(), flag(p, "--out-path"), "trained.ot".into(), flag(p, "--run-id"), "abc".into()]);
        let o = cx.cli(&SimCfg { cpu_s: 60, ..p.sim.clone() }, "", &args(&a)); cx.out.nontrivial = true; ok = o.exit == Exit::Ok; stored = vec![root.join("trained.ot")]; if sound && !ok { return bad("fails", format!("die-e {} fails: {}", a.join(" "), short(&o, &root))); }
    } else {
        let d = root.join("w"); std::fs::create_dir_all(d.join("models").join("toy")).map_err(h)?; if p.i("start") == 1 { net::<ToyD>(p.i("seed_net") as u64, 1.0, 0.5).vs.save(best_path::<ToyD>(&d)).map_err(h)?; }
        let mut toy = crate::scen_search::toy_cfg(p); toy.all_legal = false; toy.inf_pm = 0; toy.games = 400; let c = cfg.clone(); let d2 = d.clone();
        let (e, o, _) = cx.phase_raw(&SimCfg { cpu_s: 60, ..p.sim.clone() }, |ch, out| { std::env::set_current_dir(&d2).unwrap(); let r = ch.sim(|| { record(toy, false, false); let mut az = c.az::<ToyD>(None); if kind == 1 { az.learn::<ToyD>() } else { az.learn_parallel::<ToyD>() } }); out.nontrivial = true; out.data = json!({"ok": r.is_ok(), "why": r.err().unwrap_or_default().lines().next().unwrap_or("").chars().take(120).collect::<String>()}); Ok(()) })?;
        ok = e == Exit::Ok && o.data["ok"] == json!(true); stored = files_below(&d.join("models")); if sound && !ok { return bad("fails", format!("a learning run with learning rate {} fails: {:?} {}", lr, e, o.data["why"])); }
    }
    let what = ["a learning run", "a single-game learning run", "die-e train"][kind.clamp(0, 2) as usize]; let mut n = 0;
    for f in &stored { if !f.exists() { continue; } let w = if kind == 2 { file_weights::<T3>(f) } else { file_weights::<ToyD>(f) }; n += 1;
        match w { Ok(w) => { let k = nans(&w); if k > 0 { return bad("nan-stored", format!("{} with learning rate {} and weight decay {} {} and leaves {} with {} weights that are not numbers", what, lr, wd, if ok { "reports success" } else { "fails" }, f.strip_prefix(&root).unwrap_or(f).display(), k)); } } Err(e) => return bad("unreadable", format!("{} leaves {}: {}", what, f.strip_prefix(&root).unwrap_or(f).display(), e)) } }
    cx.out.probe(&format!("{}: {}", what, if ok { "done" } else { "stopped" })); cx.out.probe_n("model files read", n); cx.out.state(hash_str(&format!("{}{}{}{}{}", kind, lr, wd, cfg.epochs, cfg.tbatch)) ^ p.i("seed") as u64);
    cx.out.sample = json!({"kind": what, "learning rate": format!("{}", lr), "weight decay": format!("{}", wd), "ended well": ok, "model files": n}); Ok(())
}
