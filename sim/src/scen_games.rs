//! C23: saving and loading games under faults, crashes and damage.
use crate::ensure;
use crate::fw::*;
use crate::games::*;
use crate::scen_data::{faults, put, READ_KINDS, SAVE_KINDS, STAT_KINDS};
use crate::scen_match::agent;
use crate::scen_model::clean;
use crate::sim::{Exit, SimCfg};
use crate::util::*;
use die_e::base::LearnableGame;
use die_e::versus::{load_all_games, load_game, save_game, Agent, Game, Turn};
use serde_json::{json, Value};
use std::path::{Path, PathBuf};

pub fn gen(r: &mut Rng, _p: &str, _t: bool, i: usize) -> Plan {
    let mut p = newplan(); crate::scen_search::gen_toy(r, &mut p, (1, 40)); let n = r.range(1, 8);
    put(&mut p, &[("game", json!(i % 3)), ("seed_play", json!(r.next() >> 2)), ("turns", json!((0..n).map(|_| *r.pick(&[0, 1, 3, 9, 30, 120])).collect::<Vec<i64>>())), ("toy_pass", json!(200)), ("toy_inf", json!(0)),
        ("damage", json!(0)), ("at", json!(r.below(1_000_000))), ("left", json!(r.below(3))), ("again", json!(r.below(2))), ("read", json!(0)), ("many", json!(0))]);
    if i % 128 == 40 { p.p.insert("many".into(), json!(r.range(1500, 2048))); return p; }
    match i % 8 { 0 => {} 1 => p.sim.power_end = true, 2 => { p.p.insert("damage".into(), json!(r.range(1, 4))); } 3 => { let k = r.range(8, 18); p.sim.full_after = Some(r.below(1 << k)); } 4 => { p.p.insert("read".into(), json!(1)); p.sim.faults = faults(r, 'r', 40, &READ_KINDS); if i % 16 == 12 { p.sim.faults = faults(r, 's', 2 * n as u64 + 2, &STAT_KINDS); } } _ => p.sim.faults = faults(r, 'm', 5 * n as u64, &SAVE_KINDS) }
    p
}
/// Many games made by the code itself, saved to one directory: every one has to be there.
fn run_many(p: &Plan, cx: &mut Ctx) -> Res {
    let n = p.u("many").clamp(1, 3000); let toy = crate::scen_search::toy_cfg(p); let dir = cx.root.join("games"); std::fs::create_dir_all(&dir).map_err(|e| Bad::H(e.to_string()))?;
    let d2 = dir.clone();
    cx.phase(&clean(p, 1), |ch, out| {
        let ds = d2.to_str().unwrap().to_string();
        let r = ch.sim(|| { record(toy, false, false); (0..n).map(|i| { let mut g = Game::new(Agent::Random, Agent::Random, ToyD::new()); for k in 0..11 { if (i >> k) & 1 == 1 { g.winner = Agent::Random; } let mut s = ToyD::new(); s.set_id(2 * k + ((i >> k) & 1)); g.turns.push(Turn { action: ToyD::EMPTY_MOVE, player: if (i >> k) & 1 == 1 { Agent::Mcts } else { Agent::Random }, state: s }); } save_game(&g, &ds).map_err(|e| e.to_string()) }).collect::<Result<Vec<_>, String>>() });
        out.nontrivial = true; match r { Ok(Ok(_)) => Ok(()), Ok(Err(m)) | Err(m) => viol("panic", format!("saving {} games failed: {}", n, m)) }
    })?;
    let d2 = dir.clone();
    cx.phase(&clean(p, 5), |ch, out| {
        let r = ch.sim(|| { record(toy, false, false); load_all_games::<ToyD>(d2.clone()).map_err(|e| e.to_string()) });
        let v = match r { Ok(Ok(v)) => v, Ok(Err(m)) | Err(m) => return viol("directory", format!("a directory with {} saved games doesn't load: {}", n, m)) };
        let mut seen = vec![0usize; 2048]; for g in &v { let k: usize = g.turns.iter().enumerate().map(|(k, t)| ((t.player == Agent::Mcts) as usize) << k).sum(); seen[k % 2048] += 1; }
        let want: Vec<usize> = { let mut w = vec![0usize; 2048]; for i in 0..n { w[i % 2048] += 1; } w };
        ensure!(seen == want, "directory", "{} games were saved to a directory and every one reported as saved, loading it yields {} ({} of them missing)", n, v.len(), want.iter().zip(&seen).map(|(a, b)| a.saturating_sub(*b)).sum::<usize>());
        out.probe_n("games in one directory", n as u64); out.sample = json!({"games in one directory": n}); Ok(())
    })?;
    cx.out.state(n as u64); Ok(())
}
pub fn run(p: &Plan, cx: &mut Ctx) -> Res { if p.i("many") > 0 { return run_many(p, cx); } match p.i("game") { 0 => run_g::<WT>(p, cx), 1 => run_g::<WB>(p, cx), _ => run_g::<ToyD>(p, cx) } }
/// What a game holds, field by field.
fn facts<G: Sg>(g: &Game<G>) -> Value { json!({"winner": format!("{:?}", g.winner), "turns": g.turns.iter().map(|t| json!([format!("{:?}", t.action), format!("{:?}", t.player), t.state.snapshot().to_vec()])).collect::<Vec<_>>()}) }
fn file_of(dir: &Path, g: &Value) -> PathBuf { dir.join(format!("{}.json", g["id"].as_str().unwrap_or("?"))) }
fn caught<T>(f: impl FnOnce() -> Result<T, Box<dyn std::error::Error>>) -> Result<T, String> { match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) { Ok(Ok(x)) => Ok(x), Ok(Err(e)) => Err(e.to_string()), Err(_) => Err("panicked".into()) } }
fn run_g<G: Sg>(p: &Plan, cx: &mut Ctx) -> Res {
    let toy = crate::scen_search::toy_cfg(p); let turns = p.ints("turns"); if turns.is_empty() { return Ok(()); }
    let dir = cx.root.join("games"); std::fs::create_dir_all(&dir).map_err(|e| Bad::H(e.to_string()))?;
    match p.i("left") { 1 => { let _ = std::fs::write(dir.join("notes.txt"), "not a game"); let _ = std::fs::create_dir_all(dir.join("older")); } 2 => { let _ = std::fs::write(dir.join("V1StGXR8_Z5jdHi6B-myT.json.tmp"), "{\n  \"id\": \"V1S"); let _ = std::fs::write(dir.join("README"), ""); } _ => {} }
    // the games, played at random
    let seed = p.i("seed_play") as u64; let t2 = turns.clone();
    let o = cx.phase(&clean(p, 1), |ch, out| {
        let r = ch.sim(|| { record(toy, false, false); t2.iter().enumerate().map(|(i, &n)| {
            let mut r = Rng::new(seed ^ (i as u64) << 32); let (a, b) = (r.range(0, 2), r.range(0, 2)); let mut s = G::new(); if r.chance(500) { s.skip_turn(); } if !G::IS_DETERMINISTIC { s.roll_die(); } s.set_id(i);
            let s0 = s.snapshot(); let mut g = Game::new(agent(a), agent(b), s);
            for _ in 0..n.max(0) { if s.check_winner().is_some() { break; } let v = s.get_valid_moves(); let side = s.get_player(); let m = if v.is_empty() { s.skip_turn(); G::EMPTY_MOVE } else { let m = r.pick(&v).clone(); s.apply_move(&m); m }; g.turns.push(Turn { action: m, player: agent(if side == -1 { a } else { b }), state: s }); }
            g.winner = match s.check_winner() { Some(-1) => agent(a), Some(1) => agent(b), _ => Agent::None }; (g, s0, agent(a), agent(b))
        }).collect::<Vec<_>>() });
        let games = match r { Ok(g) => g, Err(m) => return viol("panic", m) }; let mut all = vec![];
        for (g, s0, a, b) in &games {
            let v = serde_json::to_value(g).map_err(|e| Viol { class: "record".into(), msg: e.to_string() })?;
            let back: Game<G> = serde_json::from_value(v.clone()).map_err(|e| Viol { class: "record".into(), msg: format!("a game's own record doesn't load: {}", e) })?;
            ensure!(facts(&back) == facts(g), "fields", "a record of {} turns loads back with other fields", g.turns.len());
            ensure!(v["player1"] == json!(a) && v["player2"] == json!(b), "players", "the record names other players");
            let init: Option<G> = serde_json::from_value(v["initial_state"].clone()).ok(); ensure!(init.map_or(false, |s| s.snapshot() == *s0), "start", "the record doesn't hold the position the game started from");
            all.push(json!({"v": v, "f": facts(g)}));
        }
        out.data = json!(all); Ok(())
    })?;
    let all: Vec<(Value, Value)> = o.data.as_array().cloned().unwrap_or_default().into_iter().map(|x| (x["v"].clone(), x["f"].clone())).collect();
    let read = p.i("read") != 0; let wsim = if read { p.sim.quiet(3) } else { p.sim.clone() };
    // saved by one process
    let (a2, d2) = (all.clone(), dir.clone()); let prog = cx.root.join("progress");
    let (exit, o, _) = cx.phase_raw(&wsim, |ch, out| {
        let games: Vec<Game<G>> = a2.iter().map(|x| serde_json::from_value(x.0.clone()).unwrap()).collect(); let ds = d2.to_str().unwrap().to_string(); let done = std::sync::atomic::AtomicUsize::new(0);
        let r = ch.sim(|| games.iter().map(|g| { let r = save_game(g, &ds).map_err(|e| e.to_string()); done.fetch_add(1, std::sync::atomic::Ordering::SeqCst); r }).collect::<Vec<_>>());
        out.nontrivial = true; match r { Ok(v) => { out.data = json!(v.iter().map(|x| x.is_ok()).collect::<Vec<_>>()); } Err(m) => { out.data = json!({"panic": m}); } } Ok(())
    })?;
    let _ = prog; if let Some(v) = o.v { return Err(v.into()); }
    let faultless = cx.stats_faultless(); let died = exit != Exit::Ok || o.data.get("panic").is_some();
    if died && faultless { exit_ok(&exit)?; return viol("panic", format!("saving failed: {}", o.data["panic"])).map_err(Bad::V); }
    if matches!(exit, Exit::StepCap | Exit::Deadlock | Exit::CpuCap | Exit::Wall) { exit_ok(&exit)?; }
    let ok: Vec<bool> = o.data.as_array().map(|a| a.iter().map(|x| x == &json!(true)).collect()).unwrap_or_default();
    if !died && faultless && ok.iter().any(|x| !x) { return viol("refused", "a save was refused though nothing failed").map_err(Bad::V); }
    cx.out.probe(if died { "died while saving" } else if ok.iter().all(|x| *x) { "all saves reported" } else { "a save reported an error" });
    cx.out.state(hash_str(&format!("{:?}{:?}{:?}{}{}", p.sim.faults, p.sim.full_after, turns, p.i("damage"), p.i("at") % 512)));
    // damage between the processes
    let victim = p.u("at") % all.len(); let damage = p.i("damage"); let mut must_fail = false;
    if damage > 0 && ok.get(victim) == Some(&true) { let f = file_of(&dir, &all[victim].0); if let Ok(b) = std::fs::read(&f) { let cut = (p.u("at") / 7) % b.len().max(1); let text_end = b.iter().rposition(|c| !c.is_ascii_whitespace()).map_or(0, |x| x + 1);
        let c: Vec<u8> = match damage { 1 => { must_fail = cut < text_end; b[..cut].to_vec() } 2 => { must_fail = cut < text_end; let mut c = b[..cut].to_vec(); c.resize(b.len(), 0); c } 3 => { must_fail = true; vec![] } _ => { must_fail = cut > 0; let mut c = b.clone(); c.extend(&b[..cut]); c } };
        let _ = std::fs::write(&f, c); cx.out.probe(["", "file cut", "file zeroed from a point on", "file emptied", "file with more behind"][damage.clamp(0, 4) as usize]); } }
    // loaded by another
    let rsim: SimCfg = if read { SimCfg { full_after: None, ..p.sim.clone() } } else { clean(p, 5) };
    let (a2, d2, ok2) = (all.clone(), dir.clone(), ok.clone()); let n = all.len(); let cut = |s: String| s.chars().take(120).collect::<String>();
    let (exit, o, _) = cx.phase_raw(&rsim, |ch, out| {
        let files: Vec<PathBuf> = a2.iter().map(|x| file_of(&d2, &x.0)).collect(); let missing = d2.join("none.json");
        let r = ch.sim(|| { record(toy, false, false); let one: Vec<Result<Game<G>, String>> = files.iter().map(|f| caught(|| load_game::<G>(f.clone()))).collect(); let none = caught(|| load_game::<G>(missing.clone())).is_ok(); let all = caught(|| load_all_games::<G>(d2.clone())); (one, none, all) });
        let (one, none, every) = match r { Ok(x) => x, Err(m) => return viol("panic", m) };
        ensure!(!none, "from-nothing", "loading a file that doesn't exist yields a game");
        let same = |g: &Game<G>, w: &(Value, Value)| serde_json::to_value(g).ok().as_ref() == Some(&w.0) && facts(g) == w.1;
        for (k, r) in one.iter().enumerate() {
            let nt = a2[k].1["turns"].as_array().map_or(0, |t| t.len());
            match r {
                Ok(g) => { ensure!(same(g, &a2[k]), "different", "a game of {} turns loads back as another game ({} turns, won by {:?})", nt, g.turns.len(), g.winner); ensure!(!(must_fail && k == victim), "damage-unnoticed", "a damaged file loads without an error"); out.probe("loaded"); }
                Err(e) => if !read && ok2.get(k) == Some(&true) && !(damage > 0 && k == victim) { return viol("lost", format!("a game of {} turns was reported as saved{}, but doesn't load: {}", nt, if p.sim.power_end { " before power was lost" } else { "" }, cut(e.to_string()))); } else { out.probe("load refused"); }
            }
        }
        match every {
            Ok(v) => { for g in &v { ensure!(a2.iter().any(|w| same(g, w)), "different", "loading the directory yields a game that was not saved"); } if !(damage > 0) { for (k, w) in a2.iter().enumerate() { let c = v.iter().filter(|g| same(g, w)).count(); ensure!(c <= 1, "twice", "loading the directory yields a game {} times", c); if ok2.get(k) == Some(&true) { ensure!(c == 1, "directory", "loading the directory yields {} games, {} were saved in it, one of {} turns is missing", v.len(), ok2.iter().filter(|x| **x).count(), w.1["turns"].as_array().map_or(0, |t| t.len())); } } } out.probe("directory loaded"); }
            Err(e) => { ensure!(read || damage > 0 || died || ok2.iter().any(|x| !x), "directory", "a directory with {} saved games doesn't load: {}", n, cut(e)); out.probe("directory refused"); }
        }
        out.sample = json!({"game": G::name(), "turns": turns, "saves reported": ok2.len(), "faults": format!("{:?} full_after {:?}", p.sim.faults, p.sim.full_after), "damage": damage}); Ok(())
    })?;
    if let Some(v) = o.v { return Err(v.into()); } exit_ok(&exit)?;
    if p.i("again") == 0 { return Ok(()); }
    // and saved once more, over whatever was left
    let (a2, d2) = (all.clone(), dir.clone());
    cx.phase(&clean(p, 9), |ch, out| {
        let games: Vec<Game<G>> = a2.iter().map(|x| serde_json::from_value(x.0.clone()).unwrap()).collect(); let ds = d2.to_str().unwrap().to_string();
        let r = ch.sim(|| { for g in &games { save_game(g, &ds).map_err(|e| e.to_string())?; } load_all_games::<G>(d2.clone()).map_err(|e| e.to_string()) });
        match r { Err(m) | Ok(Err(m)) => viol("again", format!("saving the games again and loading the directory fails: {}", cut(m))), Ok(Ok(v)) => { ensure!(v.len() == games.len() && a2.iter().all(|w| v.iter().any(|g| serde_json::to_value(g).ok().as_ref() == Some(&w.0) && facts(g) == w.1)), "again", "{} games were saved again, loading the directory yields {}", games.len(), v.len()); out.probe("saved again"); Ok(()) } }
    })?;
    Ok(())
}
