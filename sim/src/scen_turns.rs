//! C03: turns and dice in backgammon games as the engine plays them: the batch of a match, batched self-play, single self-play.
use crate::ensure;
use crate::fw::*;
use crate::games::*;
use crate::scen_data::put;
use crate::scen_match::real_games;
use crate::scen_search::*;
use crate::util::*;
use die_e::versus::{play, Agent, Player};
use serde_json::json;
use std::collections::BTreeMap;

const HOW: [&str; 3] = ["a match", "batched self-play", "single self-play"];
pub fn gen(r: &mut Rng, _p: &str, _t: bool, i: usize) -> Plan {
    let mut p = newplan(); put(&mut p, &[("how", json!([1, 2, 1, 0, 1, 2][i % 6])), ("games", json!(r.range(40, 120))), ("rounds", json!(r.range(3, 8))), ("seed_net", json!(r.next() >> 2))]);
    p.sim.ent_eintr_pm = *r.pick(&[0, 0, 100]); p.sim.ncpu = r.range(1, 6) as u64; p.sim.max_steps = 200_000_000;
    p
}
type S = (i8, (u8, u8), bool);
fn see(e: u32) -> S { let g = WB::from_snap(&world().log[e as usize].snap).g; (g.player, g.roll, g.is_second_play) }
pub fn run(p: &Plan, cx: &mut Ctx) -> Res {
    let (how, games, rounds, sn) = (p.i("how").clamp(0, 2), p.u("games").clamp(2, 200), p.u("rounds").clamp(1, 10), p.i("seed_net") as u64);
    cx.phase(&p.sim, |ch, out| {
        let cfg = Cfg { iters: 1, c: 1.5, eps: 0.0, limit: rounds as i64, temperature: 1.0, nsp: if how == 1 { games as i64 } else { 1 }, ..Default::default() };
        if let Err(m) = ch.sim(|| {
            record(ToyCfg::DEF, false, false);
            match how {
                0 => { let m = cfg.mcts(); let (a, b) = (Player::new(Agent::Random, None), Player::new(Agent::Random, None)); record(ToyCfg::DEF, true, false); world().endless = 3000; play::<WB>(a, b, &m, 1.0); }
                _ => { let mut az = cfg.az::<WB>(None); az.model = net::<WB>(sn, 0.05, 0.02); record(ToyCfg::DEF, true, false); world().endless = 3000; if how == 1 { az.self_play_parallel::<WB>(); } else { for _ in 0..3 { az.self_play::<WB>(); } } }
            }
            world().on = false;
        }) { return viol("panic", m); }
        world().on = false;
        // each game as the events that led to what the players saw before each of their moves, and whether the move was a pass
        let w = world(); let mut lines: Vec<Vec<(S, bool, u32)>> = vec![];
        let mut walk = |first: u32, rest: &[u32], limit: usize| { let mut prev = first; let mut v = vec![]; for &e in rest { match w.log[e as usize].kind { Kind::Apply | Kind::Skip => { if v.len() >= limit { break; } v.push((see(prev), w.log[e as usize].kind == Kind::Skip, e)); prev = e; } _ => prev = e } } if !v.is_empty() { lines.push(v) } };
        if how == 0 { for g in real_games::<WB>() { let last = *g.path.last().unwrap_or(&g.first); let all: Vec<u32> = { let mut v = vec![]; let mut i = last; while i != g.first && i != NONE { v.push(i); i = w.log[i as usize].parent; } v.reverse(); v }; walk(g.first, &all, usize::MAX); } }
        else { for (_, last) in last_of_roots() { let mut v = vec![]; let mut i = last; while i != NONE { v.push(i); i = w.log[i as usize].parent; } v.reverse(); walk(v[0], &v[1..], if how == 1 { rounds } else { usize::MAX }); } }
        ensure!(!lines.is_empty(), "not-played", "no game was played in {}", HOW[how as usize]);
        let (mut fresh, mut at_round): (Vec<Vec<(u8, u8)>>, BTreeMap<usize, Vec<(u8, u8)>>) = (vec![], BTreeMap::new()); let (mut doubles, mut passes) = (0u64, 0u64);
        for l in &lines {
            let mut f = vec![];
            for (k, &((pl, roll, sec), pass, e)) in l.iter().enumerate() {
                let at = || format!("{} of a game of {}: player {} to move with {:?}{}", match k { 0 => "the first turn".into(), _ => format!("move {}", k + 1) }, HOW[how as usize], pl, roll, if sec { " (second play of a double)" } else { "" });
                ensure!((1..=6).contains(&roll.0) && (1..=6).contains(&roll.1), "bad-roll", "{}", at());
                if k == 0 { ensure!(!sec, "protocol", "{}", at()); }
                if !sec { f.push(roll); at_round.entry(k).or_default().push(roll); }
                if pass { passes += 1; } let again = !pass && roll.0 == roll.1 && !sec; if again { doubles += 1; }
                let next = match l.get(k + 1) { Some(x) => x.0, None => { if WB::from_snap(&w.log[e as usize].snap).g.board.2 .0 == 15 || WB::from_snap(&w.log[e as usize].snap).g.board.2 .1 == 15 { continue } see(e) } };
                let last = k + 1 == l.len();
                let what = || format!("{}; after a {} it is player {}'s turn with {:?}{}", at(), if pass { "pass" } else { "play" }, next.0, next.1, if next.2 { " as a second play" } else { "" });
                if again { ensure!(next == (pl, roll, true), "protocol", "{}", what()); } else { ensure!(next.0 == -pl && !next.2 && (last || next.1 != (0, 0)), "protocol", "{}", what()); }
            }
            fresh.push(f);
        }
        // fresh dice: fair together, and no two games sharing them
        let all: Vec<(u8, u8)> = fresh.iter().flatten().cloned().collect(); let place = HOW[how as usize];
        if all.len() >= 360 { let e = all.len() as f64 / 36.0; let mut t = [0f64; 36]; for r in &all { t[(r.0 as usize - 1) * 6 + r.1 as usize - 1] += 1.0; } let c2: f64 = t.iter().map(|x| (x - e) * (x - e) / e).sum(); ensure!(c2 < 150.0, "dice-not-fair", "{}: chi-square {:.1} over 35 degrees of freedom in {} rolls", place, c2, all.len()); out.probe("rolls of games tested for fairness"); }
        if how < 2 { for (k, rolls) in &at_round { let mean = rolls.len() as f64 / 36.0; let mut t = BTreeMap::new(); for r in rolls { *t.entry(*r).or_insert(0usize) += 1; } for (r, n) in t { ensure!((n as f64) < mean + 10.0 * mean.sqrt() + 8.0, "dice-shared", "{} of the {} games of {} have {:?} at move {}", n, rolls.len(), place, r, k + 1); } if rolls.len() >= 36 { out.probe("rolls compared across games"); } } }
        let mut seen = BTreeMap::new(); for (g, f) in fresh.iter().enumerate() { if f.len() >= 10 { if let Some(o) = seen.insert(f[..10].to_vec(), g) { return viol("dice-shared", format!("games {} and {} of {} have the same first ten rolls: {:?}", o, g, place, &f[..10])); } } }
        for f in &fresh { let mut run = 0; for x in f.windows(2) { run = if x[0] == x[1] { run + 1 } else { 0 }; ensure!(run < 9, "dice-not-fresh", "in a game of {} the roll {:?} comes {} times in a row", place, x[0], run + 1); } }
        let (mut n, mut same) = (0f64, 0f64); for f in &fresh { for x in f.windows(2) { n += 1.0; if x[0] == x[1] { same += 1.0 } } } if n >= 150.0 { ensure!(same < n / 36.0 + 9.0 * (n / 36.0).sqrt() + 6.0, "dice-not-fresh", "{}: {} of {} rolls are the one before again", place, same, n); }
        out.nontrivial = true; out.probe_n("rolls in games", all.len() as u64); out.probe_n("doubles in games", doubles); out.probe_n("passes in games", passes); out.state(hash_str(&format!("{}{:?}", place, fresh))); out.sample = json!({"where": place, "games": lines.len(), "rolls": all.len(), "doubles": doubles, "passes": passes});
        Ok(())
    })?;
    Ok(())
}
