//! C09, C25: moves are drawn as the configured search and temperature say, wherever moves are made: in matches, in self-play, by the single-game calls.
use crate::ensure;
use crate::fw::*;
use crate::games::*;
use crate::scen_data::put;
use crate::scen_match::real_games;
use crate::scen_model::best_path;
use crate::scen_search::*;
use crate::scen_selfplay::{played, played_of, repeated_shares};
use crate::sim::mix;
use crate::util::*;
use die_e::alphazero::nnet::ResNet;
use die_e::mcts::alpha_mcts::alpha_mcts;
use die_e::versus::{play, Agent, Player};
use serde_json::json;
use std::collections::BTreeMap;

const HOW: [&str; 6] = ["the match of two players", "the match against another model", "the match against the best model", "batched self-play", "single self-play", "the choice of a move"];
pub fn gen(r: &mut Rng, _p: &str, _t: bool, i: usize) -> Plan {
    let mut p = newplan(); gen_toy(r, &mut p, (1, 4)); let how = [2, 0, 3, 1, 4, 5][i % 6]; let game = if how == 5 { r.below(2) * 2 } else { [2, 2, 0][(i / 6) % 3] };
    put(&mut p, &[("how", json!(how)), ("game", json!(game)), ("toy_inf", json!(0)), ("toy_win", json!(0)), ("toy_branch", json!(r.range(2, 6))), ("toy_pass", json!(*r.pick(&[0, 0, 100]))), ("toy_games", json!(400)), ("seed", json!(r.next() >> 2)), ("seed_net", json!(r.next() >> 2)), ("seed_other", json!(r.next() >> 2)),
        ("iters", json!(r.range(6, 14))), ("c", json!(*r.pick(&[1.0, 2.0, 4.0]))), ("temperature", json!(*r.pick(&[0.01, 0.05, 0.3, 0.5, 0.8, 1.0, 1.0, 1.5, 2.5, 6.0])))]);
    p
}
pub fn run(p: &Plan, cx: &mut Ctx) -> Res { if p.i("game") == 0 { run_g::<WT>(p, cx) } else { run_g::<ToyD>(p, cx) } }

/// How moves drawn compare with the distribution they should be drawn from.
#[derive(Default)]
struct Score { /// the score in the temperature: its sum and variance
    s: f64, var: f64, n: u64, impossible: Option<String>, open: u64 }
impl Score {
    fn add(&mut self, shares: &[i64], code: u32, temp: f64, at: String) {
        let top = *shares.iter().max().unwrap_or(&0) as f64; if top <= 0.0 { return; }
        let k = shares.get(code as usize).copied().unwrap_or(0); let w: Vec<(f64, f64)> = shares.iter().filter(|x| **x > 0).map(|&x| { let l = (x as f64 / top).ln(); (l, (l / temp).exp()) }).collect(); let z: f64 = w.iter().map(|x| x.1).sum();
        if k <= 0 || ((k as f64 / top).ln() / temp).exp() / z < 1e-12 { self.impossible.get_or_insert(format!("{} with {} of {} visits (the most visited has {}) in {}", code, k.max(0), shares.iter().filter(|x| **x > 0).sum::<i64>(), top, at)); return; }
        let m: f64 = w.iter().map(|x| x.0 * x.1).sum::<f64>() / z; let v: f64 = w.iter().map(|x| (x.0 - m).powi(2) * x.1).sum::<f64>() / z; self.s += (k as f64 / top).ln() - m; self.var += v; self.n += 1;
    }
    fn z(&self) -> f64 { if self.var < 8.0 { 0.0 } else { self.s / self.var.sqrt() } }
}
fn run_g<G: Sg>(p: &Plan, cx: &mut Ctx) -> Res {
    let mut toy = toy_cfg(p); toy.all_legal = false; toy.inf_pm = 0; toy.win_kind = 0; let (how, iters, temp, sn, so) = (p.i("how").clamp(0, 5), p.u("iters").max(2), p.f("temperature").max(0.01), p.i("seed_net") as u64, p.i("seed_other") as u64);
    let cfg = Cfg { iters: iters as i64, c: p.f("c").max(0.5), eps: 0.0, limit: 400, temperature: temp, nsp: if how == 3 { 60 } else { 1 }, ..Default::default() };
    let mk = |s: u64| -> ResNet { if G::name() == "toy" { net::<G>(s, 0.05, 0.02) } else { net::<G>(s, 0.7, 0.5) } };
    let root = cx.root.clone(); let seed = p.i("seed") as u64;
    cx.phase(&p.sim, |ch, out| {
        std::env::set_current_dir(&root).unwrap(); let best = best_path::<G>(&root); std::fs::create_dir_all(best.parent().unwrap()).unwrap();
        let what = format!("{} ({} iterations, exploration constant {}, temperature {})", HOW[how as usize], iters, cfg.c, temp);
        let r = ch.sim(|| {
            record(toy, false, false); world().endless = 2000; let mut chosen: Vec<(G, u32)> = vec![];
            if how == 0 { let (a, b) = (Player::new(Agent::Model, Some(mk(sn))), Player::new(Agent::Model, Some(mk(so)))); let m = cfg.mcts(); record(toy, true, false); world().endless = 2000; play::<G>(a, b, &m, temp); world().on = false; return chosen; }
            let mut az = cfg.az::<G>(None); az.model = mk(sn);
            match how {
                1 => { let o = mk(so); record(toy, true, false); az.play_vs_model::<G>(o); }
                2 => { mk(so).vs.save(&best).unwrap(); record(toy, true, false); az.play_vs_best_model::<G>(); }
                3 => { record(toy, true, false); az.self_play_parallel::<G>(); }
                4 => { record(toy, true, false); for _ in 0..40 { az.self_play::<G>(); } }
                _ => { let mut rng = Rng::new(seed); for k in 0..6 { let s = position::<G>(&mut rng, (k % 3) as i64, k); if s.check_winner().is_some() || s.get_valid_moves().len() < 2 { continue; } for _ in 0..50 { let m = az.get_next_move_for_state(&s); chosen.push((s, if m == G::EMPTY_MOVE { u32::MAX } else { s.encode(&m) })); } } }
            }
            world().on = false; chosen
        });
        let chosen = match r { Ok(x) => x, Err(m) => return viol("panic", m) }; world().on = false;
        let (m1, m2) = (mk(sn), mk(so)); let (mut n_searches, mut cache) = (0, BTreeMap::<([i8; 32], bool), Option<Vec<i64>>>::new());
        let mut shares = |s: &G, second: bool| -> Result<Option<Vec<i64>>, Viol> { let k = (s.snapshot(), second); if let Some(v) = cache.get(&k) { return Ok(v.clone()); } if n_searches >= 700 { return Ok(None); } n_searches += 1;
            let net = if second { &m2 } else { &m1 };
            let v = if how >= 4 { alpha_mcts(s, net, &cfg.mcts()).map(|t| { let f = flat(&t); let sum: f32 = f.iter().sum(); f.iter().map(|x| (*x as f64 / sum as f64 * iters as f64).round() as i64).collect() }) } else { repeated_shares(s, net, &cfg, iters)? }; cache.insert(k, v.clone()); Ok(v) };
        if how <= 2 {
            // which of the two models is the first player is the match's own business when it isn't told
            let games = real_games::<G>(); ensure!(!games.is_empty(), "no-match", "no game was played in {}", what); let mut scores = [Score::default(), Score::default()];
            for (gi, g) in games.iter().enumerate() {
                let w = world(); let mut prev = w.log[g.first as usize].snap;
                for e in &g.path { let ev = w.log[*e as usize]; let s = G::from_snap(&prev); prev = ev.snap; if ev.kind != Kind::Apply || s.get_valid_moves().len() < 2 { continue; }
                    for turned in 0..if how == 0 { 1 } else { 2 } { if scores[turned].impossible.is_some() { continue; } let second = (s.get_player() == 1) != (turned == 1); match shares(&s, second)? { Some(v) => scores[turned].add(&v, ev.code, temp, format!("{:?} (game {})", s, gi)), None => scores[turned].open += 1 } } }
            }
            let ok = |s: &Score| s.impossible.is_none() && s.z().abs() < 6.0;
            if !ok(&scores[0]) && !(how > 0 && scores[1].n > 0 && ok(&scores[1])) { let s = &scores[0]; match &s.impossible { Some(m) => return viol("not-drawn-so", format!("{}: a model played {}", what, m)), None => return viol("temperature", format!("{}: the {} moves drawn are {} spread out than the visits and the temperature say (score {:.1} standard deviations)", what, s.n, if s.s < 0.0 { "more" } else { "less" }, s.z())) } }
            out.probe_n("moves of a match", scores[0].n); if scores[0].var >= 8.0 { out.probe("temperature told apart"); } out.nontrivial = scores[0].n > 0; out.state(mix(scores[0].n) ^ hash_str(&what)); out.sample = json!({"moves": scores[0].n, "score": (scores[0].z() * 100.0).round() / 100.0, "variance": scores[0].var.round(), "where": what});
        } else {
            let mut sc = Score::default(); let mut all = chosen;
            if how == 3 { for g in played::<G>(400)? { all.extend(g.moves.iter().map(|m| (m.0, m.1))); } }
            if how == 4 { for (_, last) in last_of_roots() { if path_to(last).iter().any(|e| matches!(e.kind, Kind::Apply | Kind::Skip)) { let g = played_of::<G>(last, usize::MAX)?; all.extend(g.moves.iter().map(|m| (m.0, m.1))); } } }
            for (s, code) in &all { if s.get_valid_moves().len() < 2 || sc.impossible.is_some() { continue; } match shares(s, false)? { Some(v) => sc.add(&v, *code, temp, format!("{:?}", s)), None => sc.open += 1 } }
            if let Some(m) = &sc.impossible { return viol("not-drawn-so", format!("{}: the move made was {}", what, m)); }
            ensure!(sc.z().abs() < 6.0, "temperature", "{}: the {} moves drawn are {} spread out than the visits and the temperature say (score {:.1} standard deviations)", what, sc.n, if sc.s < 0.0 { "more" } else { "less" }, sc.z());
            out.probe_n("moves of self-play or single choices", sc.n); if sc.var >= 8.0 { out.probe("temperature told apart"); } out.nontrivial = sc.n > 0; out.state(mix(sc.n) ^ hash_str(&what)); out.sample = json!({"moves": sc.n, "score": (sc.z() * 100.0).round() / 100.0, "variance": sc.var.round(), "where": what});
        }
        Ok(())
    })?;
    Ok(())
}
