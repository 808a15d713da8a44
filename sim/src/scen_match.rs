//! C21, C22, C24: matches between agents, compared with the event log of their games.
use crate::ensure;
use crate::fw::*;
use crate::games::*;
use crate::scen_data::put;
use crate::scen_search::{gen_toy, toy_cfg};
use crate::sim::{mix, SimCfg};
use crate::util::*;
use die_e::alphazero::nnet::ResNet;
use die_e::base::LearnableGame;
use die_e::versus::{load_game, play, print_game, save_game, Agent, Player, PlayResult};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};

const LIMIT: usize = 400;
const GAMES: usize = 400;
macro_rules! by_match { ($g:expr, $f:ident ( $($a:expr),* )) => { match $g { 0 => $f::<WT>($($a),*), 1 => $f::<WB>($($a),*), 3 => $f::<ToyR>($($a),*), _ => $f::<ToyD>($($a),*) } } }

pub fn gen(r: &mut Rng, prop: &str, thorough: bool, i: usize) -> Plan {
    let mut p = newplan(); gen_toy(r, &mut p, (1, 6));
    let mut game = *r.pick(&[2, 2, 2, 3]); let (mut a, mut b) = (r.range(0, 2), r.range(0, 2)); let mut iters = r.range(2, 5);
    put(&mut p, &[("toy_games", json!(400)), ("toy_inf", json!(0)), ("toy_branch", json!(r.range(2, 6)))]);
    match i % 8 {
        // around the round limit
        0 | 1 => { a = 0; b = 0; let near = r.chance(700); let l = if near { r.range(396, 402) } else { r.range(2, 30) }; put(&mut p, &[("toy_len_min", json!(l - r.range(0, 2))), ("toy_len_max", json!(l + r.range(0, 3))), ("toy_inf", json!(*r.pick(&[0, 0, 20]))), ("toy_pass", json!(*r.pick(&[0, 0, 3, 100, 500])))]); 
            match r.below(10) { 0..=4 => { if r.chance(500) { a = 1 } else { b = 1 } iters = 1; put(&mut p, &[("limit", json!(1))]); } 5 if i % 32 < 2 => { if r.chance(500) { a = 2 } else { b = 2 } iters = 2; } _ => {} }
            if near && r.chance(300) { put(&mut p, &[("toy_len_min", json!(200)), ("toy_pass", json!(400))]); } }
        // tallies
        2 => { let k = r.range(0, 400); put(&mut p, &[("toy_win", json!(1)), ("toy_k_win", json!(k)), ("toy_k_draw", json!(r.range(0, 400 - k)))]); }
        // the plain search sees immediate wins
        3 => { game = 2; a = 1; b = *r.pick(&[0, 0, 2, 1]); if r.chance(500) { std::mem::swap(&mut a, &mut b); } iters = if thorough { r.range(120, 300) } else { r.range(80, 140) }; put(&mut p, &[("toy_win", json!(2)), ("toy_again", json!(0)), ("toy_len_min", json!(1)), ("toy_len_max", json!(r.range(1, 3))), ("toy_pass", json!(*r.pick(&[0, 100])))]); }
        4 => { game = 2; a = 2; b = *r.pick(&[0, 1, 2, 2, 2]); if r.chance(300) { std::mem::swap(&mut a, &mut b); } }
        5 => { game = 0; if a == 2 && b == 2 && r.chance(500) { b = 0; } }
        6 => if thorough && i % 5 == 1 || prop != "C22" && i % 64 == 6 || i == 6 { game = 1; a = 0; b = 0; } else { game = 3; },
        _ => {}
    }
    put(&mut p, &[("game", json!(game)), ("one", json!(a)), ("two", json!(b)), ("iters", json!(iters)), ("odd", json!(r.below(2))), ("seed_net", json!(r.next() >> 2)), ("temperature", json!(*r.pick(&[0.005, 0.02, 0.5, 0.5, 1.0, 1.0, 1.25, 1.25]))), ("c", json!(1000.0))]);
    p.sim.ncpu = r.range(1, 6) as u64; p.sim.max_steps = 200_000_000;
    if game != 1 && (prop == "C22" || i % 3 == 0) && i % 8 > 1 { p.sim.sched_mode = 1; p.sim.preempt_pm = *r.pick(&[5, 50, 200]); p.sim.spurious_pm = *r.pick(&[0, 50]); p.sim.jump_pm = *r.pick(&[0, 0, 30]); }
    p
}
fn parity<G: LearnableGame>(odd: bool, seed: u64) -> ResNet { let l: Vec<f32> = (0..G::ACTION_SPACE_SIZE as u64).map(|c| (if (c % 2 == 1) == odd { 9.0 } else { 0.0 }) + 0.1 * ((mix(seed ^ c) % 10) as f32)).collect(); net_const::<G>(&l, 0.0) }
pub fn agent(k: i64) -> Agent { match k { 1 => Agent::Mcts, 2 => Agent::Model, _ => Agent::Random } }
pub fn run(p: &Plan, cx: &mut Ctx) -> Res { by_match!(p.i("game"), run_g(p, cx)) }

/// One game as the event log has it: the state it started from and every move or pass after that.
pub(crate) struct Real { pub first: u32, pub path: Vec<u32> }
fn run_g<G: Sg>(p: &Plan, cx: &mut Ctx) -> Res {
    let mut toy = toy_cfg(p); toy.games = GAMES as u32; toy.all_legal = false; let (a, b, odd, sn) = (p.i("one"), p.i("two"), p.i("odd") != 0, p.i("seed_net") as u64);
    let cfg = Cfg { iters: p.i("iters").max(if a == 2 || b == 2 { 2 } else { 1 }), c: p.f("c").max(1.0), eps: 0.0, limit: if p.i("limit") > 0 { p.i("limit") } else { 400 }, temperature: p.f("temperature").max(0.001), ..Default::default() };
    // with the plain search the exploration constant must leave room for the results
    let cfg = if a == 1 || b == 1 { Cfg { c: if a == 2 || b == 2 { cfg.c } else { 1.4 }, ..cfg } } else { cfg };
    let sim = SimCfg { cpu_s: 60, ..p.sim.clone() }; let root = cx.root.clone(); let p = p.clone();
    let (exit, o, text) = cx.phase_raw(&sim, |ch, out| {
        let dir = root.join("out"); std::fs::create_dir_all(&dir).unwrap();
        let r = ch.sim(|| {
            record(toy, false, false); let m1 = if a == 2 { Some(parity::<G>(odd, sn)) } else { None }; let m2 = if b == 2 { Some(parity::<G>(!odd, sn ^ 5)) } else { None };
            let mcts = cfg.mcts(); let (p1, p2) = (Player::new(agent(a), m1), Player::new(agent(b), m2));
            record(toy, true, sim.sched_mode > 0); world().endless = 3 * (400 + cfg.limit as usize + cfg.iters as usize) + 60; let res = play::<G>(p1, p2, &mcts, cfg.temperature); world().on = false; world().yields = false;
            res
        });
        out.nontrivial = true;
        let res = match r { Ok(x) => x, Err(m) => return viol("panic", m) };
        let games = real_games::<G>();
        if p.is("C21") { tally(&res, &games, out)?; out.sample = json!({"game": G::name(), "players": format!("{:?} against {:?}", agent(a), agent(b)), "won": res.wins_p1, "lost": res.wins_p2, "drawn or cut": res.draws}); }
        if p.is("C22") { moves::<G>(&p, toy, &games, out)?; out.sample = json!({"game": G::name(), "players": format!("{:?} against {:?}", agent(a), agent(b)), "cpus": sim.ncpu, "moves": games.iter().map(|g| g.path.len()).sum::<usize>()}); }
        if p.is("C24") { let n = replayable(&res, &games, &dir, out)?; out.sample = json!({"game": G::name(), "players": format!("{:?} against {:?}", agent(a), agent(b)), "games": games.len(), "turns": games.iter().map(|g| g.path.len()).sum::<usize>(), "replayed": n}); }
        let w = world(); for g in games.iter().take(40) { let mut h = 3; for e in &g.path { h = mix(h ^ w.log[*e as usize].code as u64 ^ (w.log[*e as usize].player as u64) << 40); } out.state(h); }
        Ok(())
    })?;
    if let Some(v) = o.v { return Err(v.into()); } exit_ok(&exit)?;
    if p.is("C24") { shown(&o, &text)?; }
    Ok(())
}
pub(crate) fn real_games<G: Sg>() -> Vec<Real> {
    let w = world(); let mut v = vec![];
    for (_, last) in last_of_roots() {
        let mut idx = vec![]; let mut i = last; while i != NONE { idx.push(i); i = w.log[i as usize].parent; } idx.reverse();
        // what happened to it before a player looked at it is how it was set up
        if idx.iter().any(|&e| w.log[e as usize].kind == Kind::SetId) { let at = w.looked[idx[0] as usize]; let mut first = idx[0]; let mut path = vec![]; for &e in &idx { if e < at { first = e; } else if matches!(w.log[e as usize].kind, Kind::Apply | Kind::Skip) { path.push(e) } else if path.is_empty() { first = e; } } v.push(Real { first, path }); }
    }
    v
}
fn winner_of<G: Sg>(e: u32) -> Option<i8> { G::from_snap(&world().log[e as usize].snap).check_winner() }

// C21
fn tally<G: Sg>(res: &PlayResult<G>, games: &[Real], out: &mut Out) -> Result<(), Viol> {
    let w = world();
    ensure!(games.len() == GAMES, "games-played", "{} games were played, a match has {}", games.len(), GAMES);
    ensure!(res.n_games == GAMES && res.games.len() == GAMES, "games-returned", "{} games were played, the result counts {} and returns {} records", games.len(), res.n_games, res.games.len());
    let first = games.iter().filter(|g| G::from_snap(&w.log[g.first as usize].snap).get_player() == -1).count();
    ensure!(first * 2 == GAMES, "halves", "{} of {} games were started by player 1", first, GAMES);
    let (mut w1, mut w2, mut dr, mut cut) = (0, 0, 0, 0);
    let mut by_root: BTreeMap<u32, (Option<i8>, usize)> = BTreeMap::new();
    for g in games {
        ensure!(!g.path.is_empty(), "not-played", "a game of the match was never played");
        ensure!(g.path.len() <= LIMIT, "round-limit", "a game went on for {} rounds, the limit is {}", g.path.len(), LIMIT);
        for e in &g.path[..g.path.len() - 1] { ensure!(winner_of::<G>(*e).is_none(), "played-on", "a game went on after it was won"); }
        let last = winner_of::<G>(*g.path.last().unwrap());
        ensure!(last.is_some() || g.path.len() == LIMIT, "stopped-early", "a game without a winner was stopped after {} rounds", g.path.len());
        match last { Some(-1) => w1 += 1, Some(1) => w2 += 1, Some(_) => dr += 1, None => cut += 1 }
        if g.path.len() == LIMIT && last.is_some() { out.probe("ended on the last round"); }
        by_root.insert(w.log[g.first as usize].root, (last, g.path.len()));
    }
    ensure!(res.wins_p1 == w1 && res.wins_p2 == w2 && res.draws == dr + cut, "tally", "player 1 won {} games, player 2 {}, {} were drawn and {} cut; reported: {}, {} and {} draws", w1, w2, dr, cut, res.wins_p1, res.wins_p2, res.draws);
    ensure!((res.winrate - w1 as f64 / GAMES as f64).abs() < 1e-9, "winrate", "player 1 won {} of {} games, the win rate is {}", w1, GAMES, res.winrate);
    // the printed result: each number stands on a line naming what it counts
    let t = format!("{}", res); let line = |ws: &[&str]| -> Option<String> { t.lines().find(|l| { let y = l.to_lowercase(); ws.iter().all(|w| y.contains(w)) && y.contains(':') }).map(|l| l.rsplit(':').next().unwrap_or("").trim().trim_end_matches('%').to_string()) };
    for (ws, n) in [(&["win", "player 1"][..], w1), (&["win", "player 2"][..], w2), (&["draw"][..], dr + cut), (&["number", "game"][..], GAMES)] { if let Some(x) = line(ws) { ensure!(x.parse::<f64>().ok() == Some(n as f64), "printed", "player 1 won {} games, player 2 {}, {} were drawn or cut; the result is printed as\n{}", w1, w2, dr + cut, t); out.probe("printed numbers read"); } }
    if let Some(x) = line(&["winrate"]) { let v = x.parse::<f64>().unwrap_or(-1.0); ensure!((v - 100.0 * w1 as f64 / GAMES as f64).abs() < 0.51, "printed", "player 1 won {} of {} games; the result is printed as\n{}", w1, GAMES, t); }
    let (mut ids, mut seen) = (BTreeSet::new(), BTreeSet::new());
    for (k, g) in res.games.iter().enumerate() {
        let v = serde_json::to_value(g).map_err(|e| Viol { class: "record".into(), msg: e.to_string() })?;
        ensure!(ids.insert(v["id"].to_string()), "same-id", "two games of the match have the identifier {}", v["id"]);
        ensure!(v["player1"] == json!(res.player1) && v["player2"] == json!(res.player2), "players", "record {} names other players", k);
        let node = match g.turns.last() { Some(t) => t.state.node(), None => return viol("empty-record", format!("record {} has no turns", k)) };
        if node == NONE { continue; }
        let root = w.log[node as usize].root; ensure!(seen.insert(root), "same-game", "two records are of the same game");
        let (win, rounds) = match by_root.get(&root) { Some(x) => *x, None => return viol("other-game", "a record is of a game that is not of the match") };
        let want = match win { Some(-1) => res.player1.clone(), Some(1) => res.player2.clone(), _ => Agent::None };
        ensure!(g.winner == want, "credited", "a game that {} after {} rounds is credited to {:?} (players {:?} and {:?})", match win { Some(-1) => "player 1 won".to_string(), Some(1) => "player 2 won".to_string(), Some(_) => "was drawn".to_string(), None => "was cut".to_string() }, rounds, g.winner, res.player1, res.player2);
    }
    out.probe_n("won by player 1", w1 as u64); out.probe_n("won by player 2", w2 as u64); out.probe_n("drawn", dr as u64); out.probe_n("cut at the limit", cut as u64); out.probe("match counted");
    Ok(())
}
// C22
fn moves<G: Sg>(p: &Plan, toy: ToyCfg, games: &[Real], out: &mut Out) -> Result<(), Viol> {
    let w = world(); let kinds = [p.i("one"), p.i("two")]; let odd = p.i("odd") != 0;
    let mut idx: BTreeMap<(usize, usize), Vec<u32>> = BTreeMap::new(); let (mut sight, mut hit) = ([0u32; 2], [0u32; 2]);
    for (gi, g) in games.iter().enumerate() {
        let mut before = w.log[g.first as usize].snap;
        for (k, e) in g.path.iter().enumerate() {
            let ev = &w.log[*e as usize]; let s = G::from_snap(&before); let side = (s.get_player() == 1) as usize; let own = kinds[side]; let who = if side == 0 { "player 1" } else { "player 2" };
            let mut legal: Vec<u32> = s.get_valid_moves().iter().map(|m| s.encode(m)).collect(); legal.dedup(); before = ev.snap;
            ensure!(ev.player == s.get_player(), "side", "round {} of game {}: the side that moved is not the one to move", k, gi);
            if ev.kind == Kind::Skip { ensure!(legal.is_empty(), "passed", "round {} of game {}: {} ({:?}) passed with {} plays", k, gi, who, agent(own), legal.len()); out.probe("pass"); continue; }
            let code = ev.code; ensure!(legal.contains(&code), "illegal", "round {} of game {}: {} ({:?}) played {} which is not one of {:?}", k, gi, who, agent(own), code, legal);
            let mut uniq = legal.clone(); uniq.sort(); uniq.dedup();
            match own {
                2 => { let mine = if side == 0 { odd } else { !odd }; if legal.iter().any(|c| (c % 2 == 1) == mine) { ensure!((code % 2 == 1) == mine, "other-model", "round {} of game {}: {} played {}, a play the model of {} would never choose here", k, gi, who, code, who); if legal.iter().any(|c| (c % 2 == 1) != mine) { out.probe("model told apart"); } } }
                1 => if toy.win_kind == 2 && G::name() == "toy" && ends(&s, toy) && legal.iter().any(|c| c % 2 == 0) && legal.iter().any(|c| c % 2 == 1) { sight[side] += 1; if code % 2 == 0 { hit[side] += 1; } },
                _ => {}
            }
            if own == 0 && uniq.len() == legal.len() && legal.len() > 1 && legal.len() <= 40 { let at = legal.iter().position(|c| *c == code).unwrap(); let v = idx.entry((side, legal.len())).or_insert_with(|| vec![0; legal.len()]); v[at] += 1; }
        }
    }
    for side in 0..2 { if sight[side] >= 20 && p.i("iters") >= 60 { out.probe("plain search told apart"); ensure!(hit[side] * 100 >= sight[side] * 95, "not-searched", "player {} (plain search, {} iterations) took an immediate win in {} of {} positions", side + 1, p.i("iters"), hit[side], sight[side]); } }
    for ((side, n), v) in &idx { let t: u32 = v.iter().sum(); if t >= 100 * *n as u32 { out.probe("random told apart"); let lo = *v.iter().min().unwrap(); ensure!(lo as f64 >= 0.3 * t as f64 / *n as f64, "not-random", "player {} (random) with {} plays chose them {:?} times", side + 1, n, v); } }
    out.probe_n("moves", games.iter().map(|g| g.path.len() as u64).sum()); Ok(())
}
fn ends<G: Sg>(s: &G, _toy: ToyCfg) -> bool { let mut t = *s; if let Some(m) = s.get_valid_moves().first() { t.apply_move(m); t.check_winner().is_some() } else { false } }
// C24
fn replayable<G: Sg>(res: &PlayResult<G>, games: &[Real], dir: &std::path::Path, out: &mut Out) -> Result<usize, Viol> {
    let w = world(); let by_root: BTreeMap<u32, &Real> = games.iter().map(|g| (w.log[g.first as usize].root, g)).collect(); let mut shown = vec![]; let mut n = 0; let mut order: Vec<usize> = (0..res.games.len()).collect(); order.sort_by_key(|k| std::cmp::Reverse(res.games[*k].turns.len())); let pick = [order[0], order[order.len() / 2], *order.last().unwrap()];
    for (k, g) in res.games.iter().enumerate() {
        let node = match g.turns.last() { Some(t) => t.state.node(), None => return viol("empty-record", format!("record {} of a finished game has no turns", k)) };
        if node == NONE { continue; }
        let real = match by_root.get(&w.log[node as usize].root) { Some(r) => *r, None => return viol("other-game", "a record is of a game that is not of the match") };
        ensure!(g.turns.len() == real.path.len(), "turns", "a game of {} rounds is recorded with {} turns", real.path.len(), g.turns.len());
        let v = serde_json::to_value(g).map_err(|e| Viol { class: "record".into(), msg: e.to_string() })?;
        let init: Option<G> = serde_json::from_value(v["initial_state"].clone()).ok(); let s0 = w.log[real.first as usize].snap;
        ensure!(init.map_or(false, |s| s.snapshot() == s0), "start", "the record of a game of {} rounds doesn't hold the position it started from", real.path.len());
        let mut prev = G::from_snap(&s0);
        for (j, (t, e)) in g.turns.iter().zip(&real.path).enumerate() {
            let ev = &w.log[*e as usize];
            ensure!(t.state.snapshot() == ev.snap, "position", "turn {} of {} is recorded with another position than the game had", j, real.path.len());
            ensure!(if ev.kind == Kind::Skip { t.action == G::EMPTY_MOVE } else { t.action != G::EMPTY_MOVE && prev.encode(&t.action) == ev.code }, "action", "turn {} of {} ({}) is recorded as {:?}", j, real.path.len(), if ev.kind == Kind::Skip { "a pass".to_string() } else { format!("play {}", ev.code) }, t.action);
            let side = if prev.get_player() == -1 { &res.player1 } else { &res.player2 }; ensure!(t.player == *side, "player", "turn {} of {} is recorded as made by {:?}, it was {:?}'s", j, real.path.len(), t.player, side);
            prev = G::from_snap(&ev.snap);
        }
        let want = match winner_of::<G>(*real.path.last().unwrap()) { Some(-1) => res.player1.clone(), Some(1) => res.player2.clone(), _ => Agent::None }; ensure!(g.winner == want, "result", "the record of a game of {} rounds names {:?} as the winner, it was {:?}", real.path.len(), g.winner, want);
        n += 1;
        if pick.contains(&k) && shown.len() < 3 {
            let d = dir.join(format!("{}", shown.len())); std::fs::create_dir_all(&d).unwrap(); save_game(g, d.to_str().unwrap()).map_err(|e| Viol { class: "save".into(), msg: e.to_string() })?;
            let f = match std::fs::read_dir(&d).unwrap().flatten().next() { Some(f) => f.path(), None => return viol("save", "save_game left no file") };
            let back = load_game::<G>(f.clone()).map_err(|e| Viol { class: "load".into(), msg: e.to_string() })?;
            ensure!(serde_json::to_value(&back).ok() == Some(v.clone()), "load", "a saved game loads back as another one");
            println!("\n<<<shown {}", shown.len()); let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| print_game::<G>(f, false).map_err(|e| e.to_string()))); println!("\n>>>shown {}", shown.len());
            ensure!(matches!(r, Ok(Ok(()))), "replay", "replaying a saved game failed");
            let mut pos = vec![G::from_snap(&s0).to_pretty_str()]; for e in &real.path { pos.push(G::from_snap(&w.log[*e as usize].snap).to_pretty_str()); } let acts: Vec<serde_json::Value> = g.turns.iter().map(|t| json!([format!("{:?}", t.player), format!("{:?}", t.action)])).collect(); shown.push(json!({"pos": pos, "turns": acts, "winner": format!("{:?}", g.winner)}));
            if real.path.iter().any(|e| w.log[*e as usize].kind == Kind::Skip) { out.probe("replayed with passes"); }
        }
    }
    out.probe_n("games recorded", n as u64); out.data = json!(shown); Ok(shown.len())
}
/// Every position of the game appears in the replay, in order, with the move that led there and who made it, and the result.
fn shown(o: &Out, text: &str) -> Result<(), Viol> {
    for (k, g) in o.data.as_array().cloned().unwrap_or_default().iter().enumerate() {
        let a = text.find(&format!("<<<shown {}\n", k)); let b = text.find(&format!(">>>shown {}\n", k)); let t = match (a, b) { (Some(a), Some(b)) if a < b => &text[a..b], _ => return viol("replay", "the replay printed nothing") };
        let pos: Vec<&str> = g["pos"].as_array().unwrap().iter().map(|x| x.as_str().unwrap_or("")).collect(); let turns = g["turns"].as_array().unwrap(); let mut at = 0;
        for (j, s) in pos.iter().enumerate() { match t[at..].find(s.trim_end()) {
            Some(x) => { if j > 0 { let between = &t[at..at + x]; let (who, act) = (turns[j - 1][0].as_str().unwrap_or(""), turns[j - 1][1].as_str().unwrap_or("")); ensure!(between.contains(who) && between.contains(act), "replay-turn", "turn {} of {} was {} by {}, the replay says {:?}", j, pos.len() - 1, act, who, between.trim()); } at += x + s.trim_end().len() }
            None => return viol("replay", format!("the replay of a game of {} turns doesn't show the position after turn {}", pos.len() - 1, j)) } }
        let w = g["winner"].as_str().unwrap_or(""); let named = t.lines().find(|l| l.to_lowercase().contains("winner")); ensure!(named.map_or(true, |l| l.contains(w)), "replay-result", "the game was won by {}, the replay says {:?}", w, named);
    }
    Ok(())
}
