//! C12, C13: batched self-play against the recorded history of the games it played.
use crate::ensure;
use crate::fw::*;
use crate::games::*;
use crate::scen_search::*;
use crate::util::*;
use die_e::alphazero::alphazero::MemoryFragment;
use die_e::base::LearnableGame;
use die_e::mcts::alpha_mcts::alpha_mcts_parallel;
use die_e::mcts::node_store::NodeStore;
use die_e::mcts::utils::get_prob_tensor_parallel;
use indicatif::ProgressBar;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};

fn put(p: &mut Plan, kv: &[(&str, serde_json::Value)]) { for (k, v) in kv { p.p.insert(k.to_string(), v.clone()); } }
pub fn gen(r: &mut Rng, prop: &str, thorough: bool, i: usize) -> Plan {
    let mut p = newplan(); let game = [2, 3, 0, 2, 3, 2, 1][i % 7]; gen_toy(r, &mut p, (1, *r.clone().pick(&[4, 8, 14])));
    let limit = match game { 0 => *r.pick(&[1, 4, 5, 6, 7, 8, 9, 10, 400]), 1 => r.range(1, 9), _ => *r.pick(&[1, 2, 3, 5, 7, 9, 11, 16]) };
    let n = if game == 1 { r.range(1, 4) } else { r.range(1, if thorough { 24 } else { 12 }) };
    put(&mut p, &[("game", json!(game)), ("n", json!(n)), ("limit", json!(limit)), ("seed_net", json!(r.next() >> 2)), ("iters", json!(if game == 1 { r.range(1, 3) } else { r.range(1, if thorough { 60 } else { 24 }) })), ("c", json!(*r.pick(&[0.3, 1.0, 2.0, 4.0]))),
        ("alpha", json!(*r.pick(&[0.3, 1.0, 10.0]))), ("eps", json!(*r.pick(&[0.0, 0.0, 0.25, 1.0]))), ("temperature", json!(*r.pick(&[0.005, 0.02, 0.5, 0.5, 1.0, 1.0, 1.25, 1.25, 2.0]))), ("const_net", json!(*r.pick(&[0, 0, 0, 1, 1, 2])))]);
    if prop == "C13" { put(&mut p, &[("toy_pass", json!(*r.pick(&[0, 300, 800, 970]))), ("toy_inf", json!(*r.pick(&[0, 300, 1000])))]); }
    // sizes that need more than a byte: many games, many rounds
    match i % 25 {
        11 => put(&mut p, &[("game", json!(2 + r.below(2))), ("n", json!(r.range(257, 560))), ("iters", json!(r.range(1, 3))), ("limit", json!(r.range(2, 9)))]),
        23 => put(&mut p, &[("game", json!(2 + r.below(2))), ("n", json!(r.range(1, 3))), ("iters", json!(r.range(1, 2))), ("limit", json!(r.range(256, 420))), ("toy_inf", json!(*r.pick(&[500, 1000]))), ("toy_len_max", json!(r.range(14, 400)))]),
        _ => {}
    }
    p
}
pub fn run(p: &Plan, cx: &mut Ctx) -> Res { by_game!(p.i("game"), run_g(p, cx)) }

/// One game of a batch as it was really played: positions with the code of the move made in each, and the end.
pub struct Played<G> { pub moves: Vec<(G, u32)>, pub passes: usize, pub end: G, pub over: Option<i8>, pub rounds: usize, pub cut: bool }
/// One game from the log: the line to its last event, up to `limit` rounds (later events are a search's).
pub fn played_of<G: Sg>(last: u32, limit: usize) -> Result<Played<G>, Viol> {
    let path = path_to(last);
    let mut g = Played { moves: vec![], passes: 0, end: G::from_snap(&path[0].snap), over: None, rounds: 0, cut: false };
    for e in &path[1..] {
        if g.rounds >= limit { break; }
        if g.over.is_some() { return viol("played-past-end", format!("a finished game went on: {:?}, then {:?} {}", g.end, e.kind, e.code)); }
        match e.kind { Kind::Apply => { let legal: Vec<u32> = g.end.get_valid_moves().iter().map(|m| g.end.encode(m)).collect(); if !legal.contains(&e.code) { return viol("illegal-play", format!("code {} played in {:?}", e.code, g.end)); } g.moves.push((g.end, e.code)); g.rounds += 1 } Kind::Skip => { if !g.end.get_valid_moves().is_empty() { return viol("needless-pass", format!("pass in {:?} although a play is possible", g.end)); } g.passes += 1; g.rounds += 1 } _ => {} }
        g.end = G::from_snap(&e.snap); g.over = g.end.check_winner();
    }
    g.cut = g.over.is_none(); Ok(g)
}
/// Rebuilds the games of a batch from the log.
pub fn played<G: Sg>(limit: usize) -> Result<Vec<Played<G>>, Viol> {
    let mut v = vec![];
    for (_, l) in last_of_roots() { if path_to(l).iter().any(|e| e.kind == Kind::Apply || e.kind == Kind::Skip) { v.push(played_of(l, limit)?); } }
    Ok(v)
}

/// The visits a policy stands for; None if it is no share of that many visits.
pub fn shares_of(ps: &[f32], temp: f64, iters: usize) -> Option<Vec<i64>> {
    let un: Vec<f64> = ps.iter().map(|&x| (x as f64).powf(temp)).collect(); let sum: f64 = un.iter().sum(); let v: Vec<f64> = un.iter().map(|x| x / sum * iters as f64).collect();
    if !(sum > 0.0) || v.iter().any(|x| !((x - x.round()).abs() < 0.02)) { return None; } Some(v.iter().map(|x| x.round() as i64).collect())
}
/// The visits a search of the position without noise gives; None if a near tie leaves them open.
pub fn repeated_shares<G: Sg>(s: &G, net: &die_e::alphazero::nnet::ResNet, cfg: &Cfg, iters: usize) -> Result<Option<Vec<i64>>, Viol> {
    let w = world(); w.on = false; let mut st = NodeStore::new(); alpha_mcts_parallel(&mut st, &[*s], net, &cfg.mcts(), Some(ProgressBar::hidden())); let root = st.get_node(0); let row = flat(&get_prob_tensor_parallel(&[&root], &st));
    let t = Tree { store: &st, roots: vec![0] }; let nodes = t.collect(1_000_000)?.remove(0); let wn: Vec<usize> = nodes.iter().cloned().filter(|&i| t.node(i).visits > 0.0 || !t.node(i).children.is_empty()).collect(); let ss: Vec<G> = wn.iter().map(|&i| t.node(i).state).collect();
    let ev: BTreeMap<usize, (Vec<f32>, f32)> = wn.iter().cloned().zip(evals(net, &ss)).collect();
    Ok(if reference(&t, 0, s.get_player(), iters, cfg.c as f32, &ev)? { Some(row.iter().map(|x| (*x as f64 * iters as f64).round() as i64).collect()) } else { None })
}
fn run_g<G: Sg>(p: &Plan, cx: &mut Ctx) -> Res {
    let mut toy = toy_cfg(p); toy.all_legal = false; let (iters, limit, n, eps, temp) = (p.u("iters").max(1), p.u("limit").max(1), p.u("n").max(1), p.f("eps"), p.f("temperature").max(0.001)); let p = p.clone();
    let cfg = Cfg { iters: iters as i64, limit: limit as i64, nsp: n as i64, c: p.f("c"), alpha: p.f("alpha"), eps, temperature: temp, ..Default::default() };
    cx.phase(&p.sim.clone(), |ch, out| {
        let r = ch.sim(|| { record(toy, true, false); world().endless = 3 * (limit + iters) + 60; let mut az = cfg.az::<G>(None); az.model = make_net::<G>(&p); let m = az.self_play_parallel::<G>(); (az, m) });
        let (az, mem) = match r { Ok(x) => x, Err(m) => return viol("panic", m) };
        let games = played::<G>(limit)?; ensure!(games.len() == n, "games", "{} games were played, {} are configured", games.len(), n);
        for g in &games {
            if g.cut { ensure!(g.rounds == limit, "cut-early", "a game was given up after {} rounds, the limit is {}: {:?}", g.rounds, limit, g.end); out.probe("game cut at the limit"); }
            else { out.probe(if g.over == Some(0) { "game drawn" } else { "game won" }); if g.rounds == limit { out.probe("game ending on the last round"); } }
            out.probe_n("moves", g.moves.len() as u64); out.probe_n("passes", g.passes as u64); out.state(hash_str(&format!("{:?}{}", g.end.snap_no_dice(), g.rounds)));
        }
        out.nontrivial = games.iter().any(|g| !g.moves.is_empty());
        out.sample = json!({"game": G::name(), "games": n, "limit": limit, "iterations": iters, "rounds": games.iter().map(|g| g.rounds).collect::<Vec<_>>(), "examples": mem.len()});
        // every example belongs to one move of one game
        let key = |t: &[f32]| hash_f32s(t); let mut want: BTreeMap<u64, Vec<(usize, usize)>> = BTreeMap::new();
        for (gi, g) in games.iter().enumerate() { for (mi, (s, _)) in g.moves.iter().enumerate() { want.entry(key(&flat(&s.as_tensor()))).or_default().push((gi, mi)); } }
        let total: usize = games.iter().map(|g| g.moves.len()).sum();
        let rank = |o: i8| o + 1; let mut have: BTreeMap<u64, Vec<&MemoryFragment>> = BTreeMap::new();
        for m in &mem {
            let t = flat(&m.state);
            if !want.contains_key(&key(&t)) { let what = if G::name() == "toy" { format!(" {:?}", toy_ints(&t)) } else { String::new() }; return viol("foreign-example", format!("an example shows a position{} in which no game made a move within {} rounds (outcome {})", what, limit, m.outcome)); }
            have.entry(key(&t)).or_default().push(m);
        }
        for (k, ws) in &want {
            let hs = have.get(k).map(|v| v.as_slice()).unwrap_or(&[]); let (g0, m0) = ws[0]; let s = games[g0].moves[m0].0;
            ensure!(hs.len() == ws.len(), "example-count", "{} moves were made in {:?} but {} examples show it ({} moves, {} examples in all)", ws.len(), s, hs.len(), total, mem.len());
            if p.is("C13") {
                // labels tell whether a game that ended in time was treated as cut
                let mut w: Vec<bool> = ws.iter().map(|&(g, _)| games[g].over.map_or(true, |x| x == 0)).collect(); let mut h: Vec<bool> = hs.iter().map(|m| m.outcome == 0).collect(); w.sort(); h.sort();
                ensure!(w == h, "cut-finished", "examples of {:?} are labelled {:?}, the games ended {:?} after {:?} rounds (limit {})", s, hs.iter().map(|m| m.outcome).collect::<Vec<_>>(), ws.iter().map(|&(g, _)| games[g].over).collect::<Vec<_>>(), ws.iter().map(|&(g, _)| games[g].rounds).collect::<Vec<_>>(), limit);
                continue;
            }
            let mut w: Vec<i8> = ws.iter().map(|&(g, m)| rank(match games[g].over { Some(x) => result_for(x, games[g].moves[m].0.get_player()) as i8, None => 0 })).collect(); let mut h: Vec<i8> = hs.iter().map(|m| rank(m.outcome)).collect(); w.sort(); h.sort();
            ensure!(w == h, "wrong-outcome", "examples of {:?} (side {}) have outcomes {:?}, should be {:?}; the games ended {:?} after {:?} rounds (limit {})", s, s.get_player(), h.iter().map(|x| x - 1).collect::<Vec<_>>(), w.iter().map(|x| x - 1).collect::<Vec<_>>(), ws.iter().map(|&(g, _)| games[g].over).collect::<Vec<_>>(), ws.iter().map(|&(g, _)| games[g].rounds).collect::<Vec<_>>(), limit);
            let codes: BTreeSet<usize> = s.get_valid_moves().iter().map(|m| s.encode(m) as usize).collect();
            let mut shares: Vec<Vec<i64>> = vec![];
            for m in hs {
                let ps = flat(&m.ps); ensure!(ps.len() == G::ACTION_SPACE_SIZE as usize && ps.iter().all(|x| x.is_finite() && *x >= 0.0), "policy", "example of {:?}: bad policy", s);
                for (k, &x) in ps.iter().enumerate() { ensure!(x == 0.0 || codes.contains(&k), "policy-illegal", "example of {:?}: weight {} for code {}, legal codes are {:?}", s, x, k, codes); }
                ensure!(ps.iter().any(|&x| x > 0.0), "policy-empty", "example of {:?}: no play has any weight at temperature {}", s, temp);
                // at low temperatures small shares vanish
                if temp < 0.3 { out.probe("policy at a low temperature"); shares.push(ps.iter().map(|&x| (x > 0.0) as i64).collect()); continue; }
                let un: Vec<f64> = ps.iter().map(|&x| (x as f64).powf(temp)).collect(); let sum: f64 = un.iter().sum(); let v: Vec<f64> = un.iter().map(|x| x / sum * iters as f64).collect();
                for (k, x) in v.iter().enumerate() { ensure!(sum > 0.0 && (x - x.round()).abs() < 0.02, "policy-not-visits", "example of {:?}: weight {} for code {} at temperature {} is no share of {} visits ({:.4})", s, ps[k], k, temp, iters, x); }
                shares.push(v.iter().map(|x| x.round() as i64).collect());
            }
            // the move made in it must have been possible under its policy
            for &(g, mi) in ws { let code = games[g].moves[mi].1; ensure!(shares.iter().any(|v| v[code as usize] > 0), "policy-not-played", "code {} was played in {:?} but no example gives it weight", code, s); }
            // without noise the search of this position can be repeated
            if eps == 0.0 && G::IS_DETERMINISTIC && codes.len() > 1 && ws.len() == 1 && out.probes.get("policy compared with a repeated search").copied().unwrap_or(0) < 25 {
                if let Some(v) = repeated_shares(&s, &az.model, &cfg, iters)? {
                    out.probe("policy compared with a repeated search");
                    if temp < 0.3 {
                        let ps = flat(&hs[0].ps); let sum: f64 = ps.iter().map(|&x| x as f64).sum(); let top = *v.iter().max().unwrap() as f64; let w: Vec<f64> = v.iter().map(|&x| (x as f64 / top).powf(1.0 / temp)).collect(); let ws: f64 = w.iter().sum();
                        for (k, &x) in ps.iter().enumerate() { ensure!((x as f64 / sum - w[k] / ws).abs() < 1e-3, "policy-of-other-search", "example of {:?}: code {} has share {:.4} of the policy at temperature {}; searching it gives {} of {} visits, hence {:.4}", s, k, x as f64 / sum, temp, v[k], iters, w[k] / ws); }
                        continue;
                    }
                    ensure!(shares[0] == v, "policy-of-other-search", "example of {:?}: shares {:?}, searching it gives {:?}", s, shares[0].iter().enumerate().filter(|x| *x.1 > 0).collect::<Vec<_>>(), v.iter().enumerate().filter(|x| *x.1 > 0).collect::<Vec<_>>());
                }
            }
        }
        Ok(())
    })?;
    Ok(())
}
