//! C10, C11: the plain MCTS agent; the single-position search, move choice and single-game self-play.
use crate::ensure;
use crate::fw::*;
use crate::games::*;
use crate::scen_search::*;
use crate::sim::mix;
use crate::util::*;
use die_e::mcts::alpha_mcts::{alpha_mcts, alpha_mcts_parallel};
use die_e::mcts::node::Node;
use die_e::mcts::node_store::NodeStore;
use die_e::mcts::simple_mcts::mct_search;
use die_e::mcts::utils::get_prob_tensor_parallel;
use indicatif::ProgressBar;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};

fn prep(r: &mut Rng, game: i64) -> i64 { match game { 0 => r.range(0, 9), 1 => if r.chance(600) { -r.range(0, 4) } else { r.range(0, 120) }, _ => r.range(0, 7) } }
fn put(p: &mut Plan, kv: &[(&str, serde_json::Value)]) { for (k, v) in kv { p.p.insert(k.to_string(), v.clone()); } }

// ---------------------------------------------------------------- C10
pub fn gen_mct(r: &mut Rng, _p: &str, thorough: bool, i: usize) -> Plan {
    let mut p = newplan(); let kind = if i % 9 == 6 { 3 } else { i % 3 }; // 0 answers, 1 rollouts, 2 win in sight, 3 the lines a search plays
    let game = if kind == 2 { [0, 2, 3, 2][i / 3 % 4] } else { [0, 2, 3, 1][i / 3 % 4] };
    let preps: Vec<i64> = (0..if kind == 2 { 6 } else if game == 1 { 3 } else { 8 }).map(|_| if kind == 2 && game == 0 { r.range(3, 7) } else { prep(r, game) }).collect();
    gen_toy(r, &mut p, if kind == 2 { (1, 3) } else { (1, 14) });
    put(&mut p, &[("kind", json!(kind)), ("game", json!(game)), ("seed", json!(r.next() >> 2)), ("preps", json!(preps)),
        ("iters", json!(if kind == 2 { r.range(300, 500) } else if game == 1 { r.range(1, if thorough { 40 } else { 12 }) } else { r.range(1, 120) })), ("limit", json!(if game == 1 { *r.pick(&[1, 20, 400]) } else { *r.pick(&[1, 3, 12, 400]) })), ("c", json!(*r.pick(&[0.5, 1.0, 2.0]))), ("sims", json!(if game == 1 { 4 } else { 25 }))]);
    if kind == 2 { put(&mut p, &[("toy_win", json!(2)), ("toy_inf", json!(0)), ("toy_pass", json!(0)), ("toy_again", json!(0)), ("toy_branch", json!(r.range(2, 6))), ("limit", json!(400)), ("keep", json!(["iters", "limit", "toy_branch"]))]); }
    if kind == 3 { put(&mut p, &[("iters", json!(r.range(1, if game == 1 { 4 } else { 30 }))), ("preps", json!(preps.iter().take(3).collect::<Vec<_>>()))]);
        if i % 45 == 6 { let len = *r.pick(&[130, 300, 1010, 1300]); put(&mut p, &[("game", json!(2 + r.below(2))), ("iters", json!(r.range(1, 6))), ("limit", json!(*r.pick(&[200, 500, 1200, 3000]))), ("toy_len_min", json!(len)), ("toy_len_max", json!(len + r.range(0, 120))), ("toy_inf", json!(*r.pick(&[0, 0, 400])))]); } }
    // long games, limits that need more than a byte
    if kind == 1 && i % 27 == 13 { let len = r.range(100, 420); put(&mut p, &[("game", json!(2 + r.below(2))), ("limit", json!(r.range(256, 450))), ("toy_len_min", json!(len)), ("toy_len_max", json!(len + r.range(0, 60))), ("toy_inf", json!(*r.pick(&[0, 500]))), ("sims", json!(6))]); }
    p
}
pub fn run_mct(p: &Plan, cx: &mut Ctx) -> Res { by_game!(p.i("game"), mct_g(p, cx)) }
fn mct_g<G: Sg>(p: &Plan, cx: &mut Ctx) -> Res {
    let toy = toy_cfg(p); let preps = p.ints("preps"); if preps.is_empty() { return Ok(()); }
    let (iters, limit, kind, sims) = (p.u("iters").max(1), p.u("limit").max(1), p.i("kind"), p.u("sims").max(1)); let p = p.clone();
    let cfg = Cfg { iters: iters as i64, limit: limit as i64, c: p.f("c"), ..Default::default() };
    cx.phase(&p.sim.clone(), |ch, out| {
        let r = ch.sim(|| {
            record(toy, kind == 1 || kind == 3, false); let mut r = Rng::new(p.i("seed") as u64); let m = cfg.mcts();
            let states: Vec<G> = preps.iter().enumerate().map(|(i, &k)| position::<G>(&mut r, k, i)).collect();
            let mut moves = vec![]; let mut rolls: Vec<(usize, i8, f32, usize, usize)> = vec![];
            for (i, s) in states.iter().enumerate() {
                if kind == 1 { let node = Node::new(*s, 0, None, None, 0.0); for k in 0..sims { let side = if k % 2 == 0 { s.get_player() } else { -s.get_player() }; let a = world().log.len(); let v = node.simulate(side, limit); rolls.push((i, side, v, a, world().log.len())); } }
                else { for _ in 0..if kind == 2 { 5 } else { 1 } { let a = world().log.len(); moves.push((i, mct_search(*s, s.get_player(), &m))); if kind == 3 { rolls.push((i, 0, 0.0, a, world().log.len())); } } }
            }
            (states, moves, rolls)
        });
        let (states, moves, rolls) = match r { Ok(x) => x, Err(m) => return viol("panic", m) };
        out.nontrivial = states.iter().any(|s| s.check_winner().is_none() && !s.get_valid_moves().is_empty());
        for s in &states { if s.check_winner().is_some() { out.probe("finished position") } else if s.get_valid_moves().is_empty() { out.probe("blocked position") } else { out.probe("playable position") } out.state(hash_str(&format!("{:?}", s.snap_no_dice()))); }
        for (i, m) in &moves { check_answer(&states[*i], m)?; }
        if kind == 3 { for &(i, _, _, a, b) in &rolls { check_lines::<G>(&states[i], a, b, iters, limit, out)?; } }
        else { for &(i, side, v, a, b) in &rolls { check_rollout::<G>(&states[i], side, v, a, b, limit, out)?; } }
        if kind == 2 { for (i, s) in states.iter().enumerate() { let mv: Vec<&G::Move> = moves.iter().filter(|m| m.0 == i).map(|m| &m.1).collect(); check_win_in_sight(s, &mv, out)?; } }
        out.sample = json!({"game": G::name(), "positions": states.len(), "iterations": iters, "limit": limit, "kind": (["answers", "rollouts", "win in sight", "lines"][kind.clamp(0, 3) as usize]), "moves": moves.iter().take(4).map(|m| format!("{:?}", m.1)).collect::<Vec<_>>()});
        Ok(())
    })?;
    Ok(())
}
fn check_answer<G: Sg>(s: &G, m: &G::Move) -> Result<(), Viol> {
    let legal = s.get_valid_moves(); let none = s.check_winner().is_some() || legal.is_empty();
    if none { ensure!(*m == G::EMPTY_MOVE, "move-for-blocked", "position {:?}: no move is possible but the agent answers {:?}", s, m); } else { ensure!(legal.contains(m), "illegal-answer", "position {:?}: the agent answers {:?}, legal are {:?}", s, m, legal); }
    Ok(())
}
fn check_rollout<G: Sg>(s: &G, side: i8, v: f32, a: usize, b: usize, limit: usize, out: &mut Out) -> Result<(), Viol> {
    let w = world(); let evs = &w.log[a..b]; let mut cur = *s; let mut k = 0; let mut at = s.node();
    for (j, e) in evs.iter().enumerate() {
        if e.parent != at { continue; } // other copies do not belong to the line
        ensure!(cur.check_winner().is_none(), "rollout-past-end", "rollout from {:?} goes on after the game ended at {:?}", s, cur);
        let legal = cur.get_valid_moves();
        match e.kind { Kind::Apply => { let codes: Vec<u32> = legal.iter().map(|m| cur.encode(m)).collect(); ensure!(codes.contains(&e.code), "rollout-illegal", "rollout from {:?} plays code {} in {:?}, legal are {:?}", s, e.code, cur, legal); k += 1; } Kind::Skip => { ensure!(legal.is_empty(), "rollout-pass", "rollout from {:?} passes in {:?} although {:?} are legal", s, cur, legal); k += 1; } _ => {} }
        cur = G::from_snap(&e.snap); at = (a + j) as u32;
    }
    ensure!(k <= limit, "rollout-limit", "rollout from {:?} takes {} rounds, the limit is {}", s, k, limit);
    match cur.check_winner() {
        Some(win) => { let want = result_for(win, side); ensure!(v as f64 == want || (k == limit && v == 0.0), "rollout-result", "rollout from {:?} for side {} ends in {:?} won by {} after {} rounds, but is scored {}", s, side, cur, win, k, v); out.probe(if win == 0 { "rollout drawn" } else if want > 0.0 { "rollout won" } else { "rollout lost" }); }
        None => { ensure!(v == 0.0, "rollout-result", "rollout from {:?} is undecided after {} rounds, but is scored {}", s, k, v); ensure!(k == limit, "rollout-limit", "rollout from {:?} stops undecided after {} of {} rounds", s, k, limit); out.probe("rollout undecided"); }
    }
    Ok(())
}
/// Every line a search plays is one of legal play, ends with the game, or is left undecided only after the round limit.
fn check_lines<G: Sg>(s: &G, a: usize, b: usize, iters: usize, limit: usize, out: &mut Out) -> Result<(), Viol> {
    let w = world(); let evs = &w.log[a..b]; if s.check_winner().is_some() { return Ok(()); }
    let inner: BTreeSet<u32> = evs.iter().map(|e| e.parent).collect(); let (mut lines, mut rounds) = (0, vec![0usize; evs.len()]);
    for (j, e) in evs.iter().enumerate() {
        let up = (e.parent as usize).checked_sub(a).filter(|&u| u < evs.len()); let cur = match up { Some(u) => G::from_snap(&evs[u].snap), None => *s }; let legal = cur.get_valid_moves();
        rounds[j] = up.map_or(0, |u| rounds[u]) + matches!(e.kind, Kind::Apply | Kind::Skip) as usize;
        match e.kind { Kind::Apply => { ensure!(cur.check_winner().is_none(), "rollout-past-end", "a line of the search from {:?} goes on after the game ended at {:?}", s, cur); let codes: Vec<u32> = legal.iter().map(|m| cur.encode(m)).collect(); ensure!(codes.contains(&e.code), "rollout-illegal", "a line of the search from {:?} plays code {} in {:?}, legal are {:?}", s, e.code, cur, legal); } Kind::Skip => ensure!(legal.is_empty(), "rollout-pass", "a line of the search from {:?} passes in {:?} although {:?} are legal", s, cur, legal), _ => {} }
        if inner.contains(&((a + j) as u32)) { continue; }
        lines += 1; let end = G::from_snap(&e.snap);
        if end.check_winner().is_some() { out.probe("line to the end of the game"); } else { ensure!(rounds[j] >= limit, "rollout-limit", "a line of the search from {:?} stops undecided at {:?} after {} of {} rounds", s, end, rounds[j], limit); out.probe("line left undecided at the round limit"); }
    }
    ensure!(lines <= iters, "rollout-limit", "{} lines in {} iterations", lines, iters); Ok(())
}
/// Exact probability that random play wins for `side` (Some only for small deterministic trees), and the best result on any line.
fn random_play<G: Sg>(s: &G, side: i8, budget: &mut u32) -> Option<(f64, f64)> {
    if *budget == 0 { return None; } *budget -= 1;
    if let Some(w) = s.check_winner() { let r = result_for(w, side); return Some((r, r)); }
    let m = s.get_valid_moves(); if m.is_empty() { return None; }
    let (mut t, mut best) = (0.0, -1.0f64); for a in &m { let mut n = *s; n.apply_move(a); let (x, y) = random_play(&n, side, budget)?; t += x; best = best.max(y); }
    Some((t / m.len() as f64, best))
}
fn check_win_in_sight<G: Sg>(s: &G, moves: &[&G::Move], out: &mut Out) -> Result<(), Viol> {
    if s.check_winner().is_some() { return Ok(()); }
    let side = s.get_player(); let legal = s.get_valid_moves(); let mut wins = vec![]; let (mut worst, mut best) = (-1.0f64, -1.0f64);
    for m in &legal { let mut n = *s; n.apply_move(m); if n.check_winner() == Some(side) { wins.push(m.clone()); } else { let mut b = 30_000; match random_play(&n, side, &mut b) { Some((x, y)) => { worst = worst.max(x); best = best.max(y); } None => return Ok(()) } } }
    if wins.is_empty() || wins.len() == legal.len() { return Ok(()); }
    let hits = moves.iter().filter(|m| wins.contains(m)).count();
    if best <= 0.0 { out.probe("win in sight, no other way to win"); ensure!(hits == moves.len(), "win-missed", "position {:?}: {:?} win at once and no other play can win, but the agent chooses {:?}", s, wins, moves); }
    else if worst <= 0.0 { out.probe("win in sight, other plays win at most half the time"); ensure!(hits > 0, "win-missed", "position {:?}: {:?} win at once, every other play loses or draws as often as it wins, but the agent chooses {:?} in {} searches", s, wins, moves, moves.len()); }
    Ok(())
}

// ---------------------------------------------------------------- C11
pub fn gen_single(r: &mut Rng, _p: &str, thorough: bool, i: usize) -> Plan {
    let mut p = newplan(); let kind = [0, 0, 1][i % 3]; let game = [0, 2, 3, 1][i / 3 % 4];
    let preps: Vec<i64> = (0..if game == 1 { 2 } else { 6 }).map(|_| prep(r, game)).collect();
    gen_toy(r, &mut p, (1, if kind == 1 { 9 } else { 6 }));
    put(&mut p, &[("kind", json!(kind)), ("game", json!(game)), ("seed", json!(r.next() >> 2)), ("seed_net", json!(r.next() >> 2)), ("preps", json!(preps)), ("iters", json!(if game == 1 { r.range(1, if kind == 1 { 2 } else { 10 }) } else { r.range(1, if thorough { 120 } else { 50 }) })), ("c", json!(*r.pick(&[0.3, 1.0, 2.0, 4.0]))), ("alpha", json!(*r.pick(&[0.003, 0.3, 1.0, 10.0]))), ("eps", json!(*r.pick(&[0.0, 0.0, 0.25, 1.0]))), ("temperature", json!(*r.pick(&[0.005, 0.02, 0.5, 0.5, 1.0, 1.0, 1.25, 1.25]))), ("const_net", json!(*r.pick(&[0, 0, 0, 1, 1, 2])))]);
    if kind == 1 { put(&mut p, &[("toy_inf", json!(0))]); }
    // long games, many visits
    match i % 27 {
        14 => { let len = r.range(100, 400); put(&mut p, &[("game", json!(2 + r.below(2))), ("iters", json!(r.range(1, 3))), ("toy_len_min", json!(len)), ("toy_len_max", json!(len + r.range(0, 60)))]); }
        22 => put(&mut p, &[("game", json!(*r.pick(&[0, 2, 3]))), ("iters", json!(r.range(258, 700))), ("toy_branch", json!(r.range(1, 3))), ("preps", json!([r.range(0, 6), r.range(0, 6)]))]),
        _ => {}
    }
    p
}
pub fn run_single(p: &Plan, cx: &mut Ctx) -> Res { by_game!(p.i("game"), single_g(p, cx)) }
/// A finished search result as a distribution over the plays of a position.
pub fn check_dist<G: Sg>(s: &G, row: &[f32], what: &str) -> Result<(), Viol> {
    let codes: BTreeSet<usize> = s.get_valid_moves().iter().map(|m| s.encode(m) as usize).collect(); let sum: f64 = row.iter().map(|&x| x as f64).sum();
    ensure!(row.len() == G::ACTION_SPACE_SIZE as usize && row.iter().all(|&x| x.is_finite() && x >= 0.0) && (sum - 1.0).abs() < 1e-3, "not-a-distribution", "{} {:?}: {} probabilities sum to {}", what, s, row.len(), sum);
    for (k, &x) in row.iter().enumerate() { ensure!(x == 0.0 || codes.contains(&k), "illegal-probability", "{} {:?}: probability {} for code {}, which is no legal play", what, s, x, k); }
    Ok(())
}
fn single_g<G: Sg>(p: &Plan, cx: &mut Ctx) -> Res {
    let toy = toy_cfg(p); let preps = p.ints("preps"); let (iters, eps, kind, c) = (p.u("iters").max(1), p.f("eps"), p.i("kind"), p.f("c")); let p = p.clone();
    let cfg = Cfg { iters: iters as i64, c, alpha: p.f("alpha"), eps, temperature: p.f("temperature").max(0.001), ..Default::default() };
    cx.phase(&p.sim.clone(), |ch, out| {
        if kind == 1 {
            let (mem, news) = match ch.sim(|| { record(toy, true, false); let mut az = cfg.az::<G>(None); az.model = make_net::<G>(&p); let m = az.self_play::<G>(); (m, world().news) }) { Ok(x) => x, Err(m) => return viol("panic", m) };
            let _ = news; let last = last_of_roots(); let game = last.iter().map(|(r, l)| { let _ = r; path_to(*l) }).filter(|p| p.iter().any(|e| e.kind == Kind::Apply)).max_by_key(|p| p.len());
            let path = match game { Some(p) => p, None => return viol("no-game", "self-play returned without playing a game".to_string()) };
            let end = G::from_snap(&path.last().unwrap().snap); let win = match end.check_winner() { Some(w) => w, None => return viol("unfinished", format!("self-play returned before its game ended: {:?}", end)) };
            let mut want = vec![]; let mut cur = path[0].snap;
            for e in &path[1..] { if e.kind == Kind::Apply { want.push((G::from_snap(&cur), e.code)); } cur = e.snap; }
            ensure!(mem.len() == want.len(), "records", "a game of {} moves left {} records", want.len(), mem.len());
            for (i, (m, (s, code))) in mem.iter().zip(&want).enumerate() {
                ensure!(flat(&m.state) == flat(&s.as_tensor()), "records", "record {} of {} does not hold the position its move was made in, {:?}", i, mem.len(), s);
                let label = result_for(win, s.get_player()) as i8; ensure!(m.outcome == label, "wrong-label", "move {} of {}, by side {}, of a game won by {}: labelled {}", i, mem.len(), s.get_player(), win, m.outcome);
                let ps = flat(&m.ps); let codes: BTreeSet<usize> = s.get_valid_moves().iter().map(|a| s.encode(a) as usize).collect();
                for (k, &x) in ps.iter().enumerate() { ensure!(x == 0.0 || codes.contains(&k), "illegal-probability", "record {}: weight {} for code {}, no legal play of {:?}", i, x, k, s); } ensure!(ps[*code as usize] > 0.0, "impossible-draw", "record {}: code {} was played with weight 0", i, code);
            }
            out.nontrivial = true; out.probe(match win { 0 => "drawn game", -1 => "won by the first side", _ => "won by the second side" }); out.probe_n("passes in games", path.iter().filter(|e| e.kind == Kind::Skip).count() as u64); out.state(hash_str(&format!("{:?}", end.snap_no_dice())));
            out.sample = json!({"game": G::name(), "self-play moves": want.len(), "winner": win}); return Ok(());
        }
        let r = ch.sim(|| {
            record(toy, false, false); let net = make_net::<G>(&p); let mut az = cfg.az::<G>(None); az.model = make_net::<G>(&p); let m = cfg.mcts(); let mut r = Rng::new(p.i("seed") as u64);
            let states: Vec<G> = preps.iter().enumerate().map(|(i, &k)| position::<G>(&mut r, k, i)).collect();
            let res: Vec<Option<Vec<f32>>> = states.iter().map(|s| alpha_mcts(s, &net, &m).map(|t| flat(&t))).collect();
            let next: Vec<G::Move> = states.iter().map(|s| az.get_next_move_for_state(s)).collect();
            // the batched search of each position alone, for comparison
            let batched: Vec<(NodeStore<G>, Vec<f32>)> = if eps == 0.0 { states.iter().map(|s| { let mut st = NodeStore::new(); alpha_mcts_parallel(&mut st, std::slice::from_ref(s), &net, &m, Some(ProgressBar::hidden())); let root = st.get_node(0); let row = flat(&get_prob_tensor_parallel(&[&root], &st)); (st, row) }).collect() } else { vec![] };
            (net, states, res, next, batched)
        });
        let (net, states, res, next, batched) = match r { Ok(x) => x, Err(m) => return viol("panic", m) };
        for (i, s) in states.iter().enumerate() {
            let legal = s.get_valid_moves(); let none = s.check_winner().is_some() || legal.is_empty(); check_answer(s, &next[i])?; out.state(hash_str(&format!("{:?}", s.snap_no_dice())));
            match &res[i] {
                None => { ensure!(none, "no-answer", "the single search gives nothing for {:?}", s); out.probe("nothing to search"); }
                Some(row) => {
                    ensure!(!none, "move-for-blocked", "the single search gives probabilities for {:?}", s); check_dist(s, row, "single search of")?; out.nontrivial = true; out.probe("position searched");
                    for (k, &x) in row.iter().enumerate() { let v = x as f64 * iters as f64; ensure!((v - v.round()).abs() < 2e-3, "not-proportional", "single search of {:?} with {} iterations: probability {} for code {} is no share of the visits", s, iters, x, k); }
                    if let Some((st, brow)) = batched.get(i).filter(|_| G::IS_DETERMINISTIC) {
                        let t = Tree { store: st, roots: vec![0] }; let nodes = t.collect(1_000_000)?.remove(0); let want: Vec<usize> = nodes.iter().cloned().filter(|&i| t.node(i).visits > 0.0 || !t.node(i).children.is_empty()).collect(); let ss: Vec<G> = want.iter().map(|&i| t.node(i).state).collect();
                        let ev: BTreeMap<usize, (Vec<f32>, f32)> = want.iter().cloned().zip(evals(&net, &ss)).collect();
                        if reference(&t, 0, s.get_player(), iters, c as f32, &ev)? && legal.len() > 1 { let d = row.iter().zip(brow).map(|(a, b)| (a - b).abs()).fold(0.0, f32::max); ensure!(d < 1e-4, "unlike-batched", "position {:?} with {} iterations: the single and the batched search differ by {}", s, iters, d); out.probe("compared with the batched search"); }
                    }
                }
            }
        }
        let _ = mix(1); out.sample = json!({"game": G::name(), "positions": states.len(), "iterations": iters, "moves": next.iter().map(|m| format!("{:?}", m)).collect::<Vec<_>>()});
        Ok(())
    })?;
    Ok(())
}
