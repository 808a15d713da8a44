//! C06-C09, C26: the batched search, checked against its own tree, the network and the rules of the game.
use crate::ensure;
use crate::fw::*;
use crate::games::*;
use crate::scen_rules::construct;
use crate::sim::mix;
use crate::util::*;
use die_e::alphazero::alphazero::AlphaZero;
use die_e::alphazero::nnet::ResNet;
use die_e::backgammon::backgammon_logic::Backgammon;
use die_e::base::LearnableGame;
use die_e::mcts::alpha_mcts::{alpha_mcts, alpha_mcts_parallel};
use die_e::mcts::node::Node;
use die_e::mcts::node_store::NodeStore;
use die_e::mcts::utils::get_prob_tensor_parallel;
use indicatif::ProgressBar;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use tch::Tensor;

pub fn toy_cfg(p: &Plan) -> ToyCfg {
    ToyCfg { seed: p.i("seed_toy") as u64, branch: p.u("toy_branch").max(1) as u32, len_min: p.u("toy_len_min").max(1) as u32, len_max: p.u("toy_len_max").max(1) as u32, pass_pm: p.u("toy_pass") as u32, win_kind: p.u("toy_win") as u8, k_win: p.u("toy_k_win") as u32, k_draw: p.u("toy_k_draw") as u32, games: p.u("toy_games").max(1) as u32, inf_pm: p.u("toy_inf") as u32, all_legal: p.i("toy_all") != 0, draw_pm: p.u("toy_draw") as u32, again_pm: p.u("toy_again") as u32 }
}
pub fn gen_toy(r: &mut Rng, p: &mut Plan, len: (i64, i64)) {
    let mut put = |k: &str, v: i64| { p.p.insert(k.into(), json!(v)); };
    put("seed_toy", (r.next() >> 2) as i64); put("toy_branch", r.range(1, 6)); let a = r.range(len.0, len.1); let b = r.range(a, len.1); put("toy_len_min", a); put("toy_len_max", b);
    put("toy_pass", *r.pick(&[0, 0, 100, 300])); put("toy_win", 0); put("toy_games", 400); put("toy_inf", *r.pick(&[0, 0, 100])); put("toy_draw", *r.pick(&[0, 200, 500])); put("toy_again", *r.pick(&[0, 0, 250, 600]));
}
/// Positions the searches start from: random play of the given number of plies, or (backgammon, negative) a late position.
pub fn position<G: Sg>(r: &mut Rng, plies: i64, id: usize) -> G {
    let mut s = G::new(); s.set_id(id);
    if G::name() == "backgammon" && plies < 0 {
        let mut b = construct(r, 1); let pl = if r.chance(500) { 1i8 } else { -1 };
        // leave the side to move with few checkers so that lines end inside the tree
        let keep = (-plies).clamp(0, 4) as i32; let mine: i32 = b.0.iter().map(|&x| (x * pl).max(0) as i32).sum::<i32>() + if pl == -1 { b.1 .0 } else { b.1 .1 } as i32; let mut drop = (mine - keep).max(0);
        for x in b.0.iter_mut() { while drop > 0 && *x * pl > 0 { *x -= pl; drop -= 1; if pl == -1 { b.2 .0 += 1 } else { b.2 .1 += 1 } } }
        let mut g = Backgammon::init_with_fields(b, pl, false); g.roll = (1 + r.below(6) as u8, 1 + r.below(6) as u8);
        if g.roll.0 == g.roll.1 && r.chance(500) { g.is_second_play = true; }
        let w = W::of(g); return G::from_snap(&w.snapshot());
    }
    if !G::IS_DETERMINISTIC { s.roll_die(); }
    for _ in 0..plies { if s.check_winner().is_some() { break; } let m = s.get_valid_moves(); if m.is_empty() { s.skip_turn() } else { s.apply_move(r.pick(&m)) } }
    s
}
macro_rules! by_game { ($g:expr, $f:ident ( $($a:expr),* )) => { match $g { 0 => $f::<WT>($($a),*), 1 => $f::<WB>($($a),*), 2 => $f::<ToyD>($($a),*), _ => $f::<ToyR>($($a),*) } } }
pub(crate) use by_game;

pub fn gen(r: &mut Rng, _prop: &str, thorough: bool, i: usize) -> Plan {
    let mut p = newplan(); let game = [0, 2, 3, 0, 2, 1][i % 6];
    p.p.insert("game".into(), json!(game)); p.p.insert("seed".into(), json!(r.next() >> 2)); p.p.insert("seed_net".into(), json!(r.next() >> 2));
    let n = if game == 1 { r.range(1, 5) } else { r.range(1, if thorough { 24 } else { 10 }) };
    let preps: Vec<i64> = (0..n).map(|_| match game { 0 => r.range(0, 9), 1 => if r.chance(600) { -r.range(0, 4) } else { r.range(0, 120) }, _ => r.range(0, 7) }).collect();
    p.p.insert("preps".into(), json!(preps));
    p.p.insert("iters".into(), json!(if game == 1 { r.range(0, 14) } else if r.chance(100) { r.range(0, 2) } else { r.range(2, if thorough { 160 } else { 60 }) }));
    p.p.insert("c".into(), json!(*r.pick(&[0.3, 1.0, 2.0, 4.0]))); p.p.insert("alpha".into(), json!(*r.pick(&[0.003, 0.03, 0.3, 1.0, 10.0]))); p.p.insert("eps".into(), json!(*r.pick(&[0.0, 0.0, 0.25, 0.5, 1.0])));
    p.p.insert("const_net".into(), json!(*r.pick(&[0, 0, 0, 0, 1, 1, 2])));
    gen_toy(r, &mut p, (1, 6));
    // sizes that need more than a byte: many games, many visits, long lines
    macro_rules! put { ($k:expr, $v:expr) => { { let v: i64 = $v; p.p.insert($k.into(), json!(v)); } } }
    match i % 24 {
        9 => { let game = *r.pick(&[0, 2, 2]); put!("game", game); put!("iters", r.range(2, 6)); let n = r.range(257, 640); p.p.insert("preps".into(), json!((0..n).map(|_| r.range(0, 7)).collect::<Vec<i64>>())); }
        15 => { put!("game", 2); put!("iters", r.range(60, 180)); put!("toy_branch", r.range(1, 2)); put!("toy_len_min", r.range(40, 120)); put!("toy_len_max", 150); put!("toy_pass", 0); p.p.insert("preps".into(), json!((0..r.range(1, 3)).map(|_| r.range(0, 7)).collect::<Vec<i64>>())); }
        21 => { let game = *r.pick(&[0, 2, 2]); put!("game", game); put!("iters", r.range(258, 900)); put!("toy_branch", r.range(1, 3)); p.p.insert("preps".into(), json!((0..r.range(1, 2)).map(|_| r.range(0, 6)).collect::<Vec<i64>>()));
            // every line ends the same way: sums of values as large as the visits
            if i % 48 == 21 { put!("game", 2); put!("const_net", 1); put!("toy_branch", 2); put!("toy_win", 1); put!("toy_k_win", if i % 96 == 21 { 400 } else { 0 }); put!("toy_k_draw", 0); put!("toy_pass", 0); put!("toy_inf", 0); let l = r.range(2, 5); put!("toy_len_min", l); put!("toy_len_max", l); p.p.insert("preps".into(), json!([r.range(0, 1), r.range(0, 1)])); } }
        _ => {}
    }
    if _prop == "C09" && i % 35 == 12 { p.p.insert("lone".into(), json!(1)); }
    p
}
pub fn make_net<G: LearnableGame>(p: &Plan) -> ResNet {
    let seed = p.i("seed_net") as u64; let toy = G::name() == "toy";
    if p.i("const_net") == 2 { let mut r = Rng::new(seed); let l: Vec<f32> = (0..G::ACTION_SPACE_SIZE).map(|_| if r.chance(300) { 400.0 } else { 0.0 }).collect(); net_const::<G>(&l, (r.f() * 1.6 - 0.8) as f32) }
    else if p.i("const_net") != 0 { let mut r = Rng::new(seed); let l: Vec<f32> = (0..G::ACTION_SPACE_SIZE).map(|_| (3.0 * r.f()) as f32).collect(); net_const::<G>(&l, (r.f() * 1.6 - 0.8) as f32) } else { net::<G>(seed, if toy { 0.05 } else { 1.5 }, if toy { 0.02 } else { 0.5 }) }
}
pub fn run(p: &Plan, cx: &mut Ctx) -> Res { by_game!(p.i("game"), run_g(p, cx)) }

pub struct Tree<'a, G: LearnableGame> { pub store: &'a NodeStore<G>, pub roots: Vec<usize> }
impl<'a, G: LearnableGame> Tree<'a, G> {
    pub fn node(&self, i: usize) -> &Node<G> { self.store.get_node_ref(i) }
    /// All nodes of each game's tree, in breadth-first order; also checks that the trees are trees.
    pub fn collect(&self, depth_cap: usize) -> Result<Vec<Vec<usize>>, Viol> {
        let mut seen = BTreeSet::new(); let mut all = vec![];
        for &r in &self.roots {
            let mut v = vec![r]; let mut i = 0; ensure!(seen.insert(r), "tree-shape", "root {} belongs to another game's tree", r);
            while i < v.len() { let n = v[i]; i += 1; for &c in &self.node(n).children { ensure!(seen.insert(c), "tree-shape", "position {} has two parents", c); ensure!(self.node(c).parent == Some(n), "tree-shape", "position {} has parent {:?}, but is a child of {}", c, self.node(c).parent, n); v.push(c); ensure!(v.len() < depth_cap, "tree-shape", "the tree is larger than the search can make it"); } }
            all.push(v);
        }
        Ok(all)
    }
}

fn run_g<G: Sg>(p: &Plan, cx: &mut Ctx) -> Res {
    let toy = toy_cfg(p); let preps = p.ints("preps"); if preps.is_empty() { return Ok(()); }
    let iters = p.u("iters"); let (c, eps) = (p.f("c") as f32, p.f("eps"));
    let cfg = Cfg { iters: iters as i64, c: p.f("c"), alpha: p.f("alpha"), eps, ..Default::default() };
    let p = p.clone();
    cx.phase(&p.sim.clone(), |ch, out| {
        let mut lone: Vec<(Vec<f32>, Vec<u32>)> = vec![];
        let r = ch.sim(|| {
            record(toy, false, false); let net = make_net::<G>(&p); let mut r = Rng::new(p.i("seed") as u64);
            let states: Vec<G> = preps.iter().enumerate().map(|(i, &k)| position::<G>(&mut r, k, i)).collect();
            let mut store = NodeStore::new();
            alpha_mcts_parallel(&mut store, &states, &net, &cfg.mcts(), Some(ProgressBar::hidden()));
            let roots: Vec<Node<G>> = store.get_root_nodes().into_iter().cloned().collect();
            let refs: Vec<&Node<G>> = roots.iter().collect();
            let probs = get_prob_tensor_parallel(&refs, &store);
            // draws from the reported probabilities, as the agents make them
            let mut draws: Vec<BTreeMap<usize, u32>> = vec![];
            if p.is("C09") { for (i, n) in roots.iter().enumerate() { let mut m = BTreeMap::new(); let row = probs.get(i as i64); if !n.children.is_empty() && iters > 0 { for _ in 0..if roots.len() > 40 { 25 } else { 400 } { *m.entry(AlphaZero::weighted_select_tensor_idx(&row)).or_insert(0) += 1; } } draws.push(m); } }
            if p.i("lone") > 0 { let mut r = Rng::new(p.i("seed") as u64 ^ 0x77); for _ in 0..2 { let top = *r.pick(&[0.5, 0.9, 0.98, 0.99]); let mut row = vec![0f32; 12]; row[3] = top as f32; let w: Vec<f64> = (0..4).map(|_| 0.2 + r.f()).collect(); let s: f64 = w.iter().sum(); for (k, x) in w.iter().enumerate() { row[[0, 4, 7, 11][k]] = ((1.0 - top) * x / s) as f32; } let t = Tensor::from_slice(&row); let mut n = vec![0u32; 12]; for _ in 0..20_000 { n[AlphaZero::weighted_select_tensor_idx(&t)] += 1; } lone.push((row, n)); } }
            (net, states, store, probs, draws)
        });
        for (row, n) in &lone { for (k, (&x, &o)) in row.iter().zip(n).enumerate() { let e = x as f64 * 20_000.0; ensure!((o as f64 - e).abs() <= 6.0 * e.sqrt() + if e > 0.0 { 6.0 } else { 0.0 }, "drawn-with-other-probability", "code {} of probability {} was drawn {} times in 20000 draws from {:?}", k, x, o, row); } out.probe("draws from made-up probabilities"); }
        let (net, states, store, probs, draws) = match r { Ok(x) => x, Err(m) => return viol("panic", m) };
        check_tree::<G>(&p, &net, &states, &store, &probs, &draws, iters, c, eps, out)
    })?;
    Ok(())
}

#[allow(clippy::too_many_arguments)]
fn check_tree<G: Sg>(p: &Plan, net: &ResNet, states: &[G], store: &NodeStore<G>, probs: &Tensor, draws: &[BTreeMap<usize, u32>], iters: usize, c: f32, eps: f64, out: &mut Out) -> Result<(), Viol> {
    let prop = p.prop.as_str(); let roots: Vec<usize> = store.get_root_nodes().iter().map(|n| n.idx).collect();
    ensure!(roots.len() == states.len(), "roots", "{} games were searched but the store has {} roots", states.len(), roots.len());
    let t = Tree { store, roots: roots.clone() };
    for (i, s) in states.iter().enumerate() { ensure!(t.node(roots[i]).state.snapshot() == s.snapshot(), "roots", "root {} is not the position of game {}: {:?} vs {:?}", roots[i], i, t.node(roots[i]).state, s); }
    let trees = t.collect(4_000_000)?;
    let all: Vec<usize> = trees.iter().flatten().cloned().collect();
    let need_eval = prop != "C06" && prop != "C09";
    let ev: BTreeMap<usize, (Vec<f32>, f32)> = if need_eval {
        let want: Vec<usize> = all.iter().cloned().filter(|&i| t.node(i).visits > 0.0 || !t.node(i).children.is_empty()).collect();
        let st: Vec<G> = want.iter().map(|&i| t.node(i).state).collect(); want.iter().cloned().zip(evals(net, &st)).collect()
    } else { BTreeMap::new() };
    let (mut terminals, mut blocked, mut ambiguous) = (0, 0, 0);
    for (gi, nodes) in trees.iter().enumerate() {
        let root = roots[gi]; let side = states[gi].get_player();
        for &ni in nodes {
            let n = t.node(ni); let over = n.state.check_winner(); let legal = n.state.get_valid_moves(); let what = || format!("game {} of {} ({} iterations), position {} {:?} (root {})", gi, trees.len(), iters, ni, n.state, ni == root);
            let kids: f64 = n.children.iter().map(|&k| t.node(k).visits as f64).sum(); let v = n.visits as f64; let own = v - kids - if ni == root { if n.children.is_empty() { 1.0 } else { 0.0 } } else { 0.0 };
            if over.is_some() { terminals += (v > 0.0) as u64; } else if legal.is_empty() { blocked += 1; }
            if prop == "C06" || prop == "C25" {
                if ni == root { ensure!(v == 1.0 + iters as f64, "root-budget", "{}: {} visits instead of 1 + {}", what(), v, iters); }
                if !n.children.is_empty() { ensure!(v - kids == 1.0, "visits-unaccounted", "{}: {} visits, {} of them below it; an expanded position is evaluated once", what(), v, kids); }
                else if over.is_none() && !legal.is_empty() { ensure!(v == 0.0, "visits-unaccounted", "{}: {} visits but it was never expanded", what(), v); }
                ensure!(v >= 0.0 && v.fract() == 0.0, "visits-unaccounted", "{}: {} visits", what(), v);
            }
            if prop == "C07" && v > 0.0 {
                // evaluations credited to this very position
                let evals_here = if ni == root && !n.children.is_empty() { 0.0 } else { own };
                let each = match over { Some(w) => result_for(w, side), None => ev[&ni].1 as f64 };
                let want = evals_here * each + n.children.iter().map(|&k| t.node(k).value as f64).sum::<f64>();
                ensure!((n.value as f64 - want).abs() < 2e-3 + 2e-5 * v, "value-mismatch", "{}: value {} after {} visits ({} here, each worth {}), expected {}", what(), n.value, v, evals_here, each, want);
            } else if prop == "C07" { ensure!(n.value == 0.0, "value-mismatch", "{}: value {} without a visit", what(), n.value); }
            if prop == "C08" {
                if over.is_some() { ensure!(n.children.is_empty(), "finished-expanded", "{}: a finished game is expanded", what()); }
                let must = over.is_none() && !legal.is_empty() && (ni == root || v > 0.0);
                ensure!(!must || !n.children.is_empty(), "not-expanded", "{}: visited but not expanded", what());
                if !n.children.is_empty() {
                    let mut codes: BTreeMap<u32, usize> = BTreeMap::new();
                    for &k in &n.children {
                        let ch = t.node(k); let a = match &ch.action_taken { Some(a) => a, None => return viol("child-move", format!("{}: child {} has no move", what(), k)) };
                        ensure!(legal.contains(a), "child-move", "{}: child {} by {:?}, legal are {:?}", what(), k, a, legal);
                        let code = n.state.encode(a); ensure!(codes.insert(code, k).is_none(), "child-move", "{}: two children by {:?}", what(), a);
                        let mut s = n.state; s.apply_move(a);
                        ensure!(s.snap_no_dice() == ch.state.snap_no_dice(), "child-state", "{}: child {} by {:?} is {:?}, playing it gives {:?}", what(), k, a, ch.state, s);
                    }
                    ensure!(codes.len() == legal.len(), "child-move", "{}: {} children for {} legal plays", what(), codes.len(), legal.len());
                    let pol = &ev[&ni].0; let psum: f64 = codes.keys().map(|&k| pol[k as usize] as f64).sum(); let mut total = 0.0;
                    for (&code, &k) in &codes {
                        let (q, pr) = (t.node(k).policy as f64, pol[code as usize] as f64); total += q; let want = if psum == 0.0 { 1.0 / codes.len() as f64 } else { pr / psum }; let tol = 1e-4 + 1e-3 * want;
                        if ni != root || eps == 0.0 { ensure!((q - want).abs() < tol, "prior", "{}: prior of code {} is {}, the network gives {}", what(), code, q, want); }
                        else { let least = if psum == 0.0 { 0.0 } else { (1.0 - eps) * pr / ((1.0 - eps) * psum + eps) }; ensure!(q.is_finite() && q >= least - tol, "prior", "{}: prior of code {} is {}, at least {} is left of the network's with noise share {}", what(), code, q, least, eps); }
                    }
                    if psum == 0.0 { out.probe("no legal play has weight"); }
                    ensure!((total - 1.0).abs() < 1e-3, "prior-sum", "{}: priors sum to {}", what(), total);
                    if ni == root && eps == 1.0 && codes.len() > 3 { out.probe("root with noise only"); }
                }
            }
        }
        if (prop == "C26" || prop == "C25") && !reference(&t, root, side, iters, c, &ev)? { ambiguous += 1; }
        if prop == "C09" && iters > 0 {
            let n = t.node(root); let legal = n.state.get_valid_moves(); let row = flat(&probs.get(gi as i64)); let what = || format!("game {}, position {:?}", gi, n.state);
            if n.state.check_winner().is_some() || legal.is_empty() { ensure!(!row.iter().any(|&x| x > 0.0), "move-for-blocked", "{}: no move is possible but the search reports {:?}", what(), row.iter().enumerate().filter(|x| *x.1 > 0.0).collect::<Vec<_>>()); out.probe("no move possible"); }
            else {
                let codes: BTreeSet<usize> = legal.iter().map(|m| n.state.encode(m) as usize).collect(); let sum: f64 = row.iter().map(|&x| x as f64).sum();
                ensure!(row.iter().all(|&x| x.is_finite() && x >= 0.0) && (sum - 1.0).abs() < 1e-3, "not-a-distribution", "{}: probabilities sum to {}, lowest {}", what(), sum, row.iter().cloned().fold(f32::MAX, f32::min));
                for (k, &x) in row.iter().enumerate() { ensure!(x == 0.0 || codes.contains(&k), "illegal-probability", "{}: probability {} for code {}, which is no legal play", what(), x, k); }
                let tot: f64 = n.children.iter().map(|&k| t.node(k).visits as f64).sum();
                for &k in &n.children { let ch = t.node(k); let code = n.state.encode(ch.action_taken.as_ref().unwrap()) as usize; let want = ch.visits as f64 / tot; ensure!((row[code] as f64 - want).abs() < 1e-4, "not-proportional", "{}: code {} has {} of {} visits but probability {}", what(), code, ch.visits, tot, row[code]); }
                let d = &draws[gi]; let nd: u32 = d.values().sum(); let mut chi = 0.0;
                for (&k, _) in d.iter() { ensure!(row[k] > 0.0, "impossible-draw", "{}: code {} of probability {} was drawn", what(), k, row[k]); }
                for (k, &x) in row.iter().enumerate() { if x > 0.0 { let e = x as f64 * nd as f64; let o = *d.get(&k).unwrap_or(&0) as f64; chi += (o - e) * (o - e) / e.max(1.0); } }
                let df = row.iter().filter(|&&x| x > 0.0).count() as f64; ensure!(chi < df + 14.0 * (2.0 * df).sqrt() + 60.0, "drawn-with-other-probability", "{}: chi-square {:.1} over {} codes in {} draws", what(), chi, df, nd);
            }
        }
    }
    out.probe_n("finished positions evaluated", terminals); out.probe_n("blocked positions", blocked); out.probe_n("games with a near tie (not compared further)", ambiguous); out.probe_n("games searched", trees.len() as u64); out.probe_n("tree positions", all.len() as u64);
    if states.iter().any(|s| s.check_winner().is_some()) { out.probe("batch with a finished game"); }
    if trees.iter().any(|n| n.iter().any(|&i| t.node(i).visits > 0.0 && t.node(i).state.check_winner().is_some())) && trees.len() > 1 { out.probe("batch where a line ends"); }
    out.nontrivial = iters > 0 && all.len() > roots.len();
    for (gi, n) in trees.iter().enumerate() { let _ = gi; let mut h = 3; for &i in n.iter().take(400) { h = mix(h ^ t.node(i).visits.to_bits() as u64); } out.state(h); }
    out.sample = json!({"games": states.len(), "game": G::name(), "iterations": iters, "tree_sizes": trees.iter().map(|x| x.len()).collect::<Vec<_>>(), "root_visits": roots.iter().map(|&i| t.node(i).visits).collect::<Vec<_>>()});
    Ok(())
}

/// Repeats the search of one game alone on its own tree; Ok(false) if two children came too close to tell.
pub fn reference<G: Sg>(t: &Tree<G>, root: usize, side: i8, iters: usize, c: f32, ev: &BTreeMap<usize, (Vec<f32>, f32)>) -> Result<bool, Viol> {
    let mut vis: BTreeMap<usize, f64> = BTreeMap::new(); let mut val: BTreeMap<usize, f64> = BTreeMap::new(); let mut exp: BTreeSet<usize> = BTreeSet::new();
    // how far single precision sums, in any order, of values that depend a little on the batch may be from these sums
    let mut err: BTreeMap<usize, f64> = BTreeMap::new();
    vis.insert(root, 1.0); exp.insert(root);
    let get = |m: &BTreeMap<usize, f64>, k: usize| *m.get(&k).unwrap_or(&0.0);
    for it in 0..iters {
        let mut path = vec![root]; let mut n = root;
        while exp.contains(&n) && !t.node(n).children.is_empty() {
            let pv = get(&vis, n).sqrt();
            let mut sc: Vec<(f64, usize, f64)> = t.node(n).children.iter().map(|&k| { let v = get(&vis, k); let (q, e) = if v == 0.0 { (0.0, 0.0) } else { (get(&val, k) / v, get(&err, k) / v) }; let u = c as f64 * pv / (v + 1.0) * t.node(k).policy as f64; (q + u, k, e + 1e-6 * u + 1e-6) }).collect();
            sc.sort_by(|a, b| b.0.partial_cmp(&a.0).unwrap());
            if sc.len() > 1 && sc[1..].iter().any(|x| sc[0].0 - x.0 < sc[0].2 + x.2) { return Ok(false); }
            n = sc[0].1; path.push(n);
        }
        let v = match t.node(n).state.check_winner() { Some(w) => result_for(w, side), None => match ev.get(&n) { Some(e) => { exp.insert(n); e.1 as f64 } None => return viol("other-line", format!("iteration {} of {}: the rule leads to position {} {:?}, which the search never evaluated", it, iters, n, t.node(n).state)) } };
        for &k in &path { *vis.entry(k).or_insert(0.0) += 1.0; let s = val.entry(k).or_insert(0.0); *s += v; if v.fract() != 0.0 || s.fract() != 0.0 { *err.entry(k).or_insert(0.0) += 1e-5 + 2e-7 * s.abs().max(1.0); } }
    }
    let mut q = vec![root];
    while let Some(n) = q.pop() { let w = get(&vis, n); ensure!(t.node(n).visits as f64 == w, "other-line", "position {} {:?} below root {} has {} visits after {} iterations; following the rule gives {}", n, t.node(n).state, root, t.node(n).visits, iters, w); q.extend(t.node(n).children.iter()); }
    Ok(true)
}

// ---------------------------------------------------------------- noise (C08)
pub fn gen_noise(r: &mut Rng, _p: &str, _t: bool, _i: usize) -> Plan { let mut p = newplan(); for (k, v) in [("seed_net", r.next() >> 2), ("seed_toy", r.next() >> 2), ("n", 1 + r.below(4))] { p.p.insert(k.into(), json!(v)); } p.p.insert("alpha".into(), json!(*r.pick(&[0.003, 0.005, 0.01, 0.05, 0.3, 1.0, 5.0]))); p.p.insert("eps".into(), json!(*r.pick(&[0.1, 0.25, 0.5, 0.75]))); p }
pub fn run_noise(p: &Plan, cx: &mut Ctx) -> Res {
    let toy = ToyCfg { seed: p.i("seed_toy") as u64, all_legal: true, len_min: 5, len_max: 5, ..ToyCfg::DEF }; let (alpha, eps, n) = (p.f("alpha"), p.f("eps"), p.u("n").max(1)); let a = TOY_A as usize;
    let seed = p.i("seed_net") as u64;
    let mut priors: Vec<Vec<f32>> = vec![]; // per setting: priors of the first batch
    for e in [1.0, eps] {
        let o = cx.phase(&p.sim, |ch, out| {
            let (rep, n) = if alpha < 0.04 { (800, 4) } else { (150, n) };
            let rows = match ch.sim(|| {
                record(toy, false, false); let net = net::<ToyD>(seed, 0.05, 0.02); let cfg = Cfg { iters: 0, alpha, eps: e, ..Default::default() }.mcts(); let mut rows: Vec<f32> = vec![];
                for _ in 0..rep { let states: Vec<ToyD> = (0..n).map(|i| { let mut s = ToyD::new(); s.set_id(i); s }).collect(); let mut st = NodeStore::new(); alpha_mcts_parallel(&mut st, &states, &net, &cfg, Some(ProgressBar::hidden()));
                    for r in st.get_root_nodes() { let mut v = vec![0f32; a]; for &k in &r.children { let c = st.get_node_ref(k); v[r.state.encode(c.action_taken.as_ref().unwrap()) as usize] = c.policy; } rows.extend(v); } }
                rows }) { Ok(r) => r, Err(m) => return viol("panic", m) };
            if e == 1.0 {
                let m: f64 = rows.chunks(a).map(|d| d.iter().map(|&x| (x as f64) * (x as f64)).sum::<f64>()).sum::<f64>() / (rows.len() / a) as f64; let want = (alpha + 1.0) / (a as f64 * alpha + 1.0);
                ensure!(rows.iter().all(|x| x.is_finite()), "noise-shape", "noise with parameter {} gives priors that are no numbers", alpha);
                ensure!((m / want).ln().abs() < 0.35, "noise-shape", "noise with parameter {} over {} plays: mean of the sum of squares {:.4}, a Dirichlet draw has {:.4}", alpha, a, m, want);
                // what is left beside the largest: for small parameters the sum of squares is near 1 whatever the parameter
                ensure!(alpha >= 0.04 || ((1.0 - m) / (1.0 - want)).ln().abs() < 0.6, "noise-shape", "noise with parameter {} over {} plays: mean of 1 less the sum of squares {:.4}, for a Dirichlet draw it is {:.4}", alpha, a, 1.0 - m, 1.0 - want);
                if std::env::var("DSIM_VERBOSE").is_ok() { eprintln!("alpha {} ratio {}", alpha, ((1.0 - m) / (1.0 - want)).ln()); }
                let firsts: BTreeSet<u32> = rows.chunks(a * n).map(|d| d[0].to_bits() ^ d[1].to_bits().rotate_left(9)).collect(); ensure!(alpha < 0.05 || firsts.len() > rep * 9 / 10, "noise-repeats", "only {} different noise draws in {} searches", firsts.len(), rep);
            }
            out.nontrivial = true; out.probe_n("noise draws", rep as u64); out.data = json!(rows[..a * n]); Ok(())
        })?;
        priors.push(serde_json::from_value(o.data).unwrap_or_default());
    }
    // the same entropy gives the same noise: noise share eps must mix exactly
    let (d, q) = (&priors[0], &priors[1]);
    let ev = { record(toy, false, false); let net = net::<ToyD>(seed, 0.05, 0.02); let states: Vec<ToyD> = (0..n).map(|i| { let mut s = ToyD::new(); s.set_id(i); s }).collect(); evals(&net, &states) };
    for i in 0..n * a { let want = (1.0 - eps) * ev[i / a].0[i % a] as f64 + eps * d[i] as f64; if (q[i] as f64 - want).abs() > 1e-4 + 1e-3 * want { return viol("noise-proportion", format!("game {} code {}: prior {} with noise share {}; network {} and noise {} give {}", i / a, i % a, q[i], eps, ev[i / a].0[i % a], d[i], want))?; } }
    cx.out.sample = json!({"alpha": alpha, "eps": eps, "games": n}); Ok(())
}

// ---------------------------------------------------------------- noise and priors of the single search (C08)
/// With a network that values every position 0 and games that do not end, the visits of a search follow its root's priors:
/// a play of prior p gets at least p*N - 1 of N visits.
pub fn gen_root(r: &mut Rng, _p: &str, _t: bool, i: usize) -> Plan {
    let mut p = newplan(); gen_toy(r, &mut p, (60, 60));
    for (k, v) in [("seed_net", json!(r.next() >> 2)), ("game", json!(2 + r.below(2))), ("toy_branch", json!(r.range(2, 4))), ("toy_len_min", json!(60)), ("toy_len_max", json!(60)), ("toy_pass", json!(0)), ("toy_inf", json!(0)), ("onesided", json!((i % 4 == 3) as i64)), ("alpha", json!(*r.pick(&[0.003, 0.01, 0.03, 0.3, 1.0, 5.0]))), ("eps", json!(*r.pick(&[0.0, 0.1, 0.25, 0.5, 1.0]))), ("per_play", json!(r.range(20, 50)))] { p.p.insert(k.into(), v); }
    p
}
pub fn run_root(p: &Plan, cx: &mut Ctx) -> Res { if p.i("game") == 2 { root_g::<ToyD>(p, cx) } else { root_g::<ToyR>(p, cx) } }
fn root_g<G: Sg>(p: &Plan, cx: &mut Ctx) -> Res {
    let mut toy = toy_cfg(p); toy.len_min = 60; toy.len_max = 60; toy.pass_pm = 0; toy.inf_pm = 0; toy.all_legal = false; toy.branch = toy.branch.max(2);
    let (alpha, eps, per, seed, one) = (p.f("alpha").max(0.001), p.f("eps").clamp(0.0, 1.0), p.u("per_play").max(10), p.i("seed_net") as u64, p.i("onesided") != 0);
    cx.phase(&p.sim, |ch, out| {
        let mut r = Rng::new(seed); let l: Vec<f32> = (0..G::ACTION_SPACE_SIZE).map(|_| if one { if r.chance(300) { 400.0 } else { 0.0 } } else { (3.0 * r.f()) as f32 }).collect();
        let res = match ch.sim(|| {
            record(toy, false, false); let net = net_const::<G>(&l, 0.0);
            (0..36usize).map(|i| {
                let mut s = G::new(); s.set_id(i); if !G::IS_DETERMINISTIC { s.roll_die(); } let codes: Vec<usize> = s.get_valid_moves().iter().map(|m| s.encode(m) as usize).collect();
                let n = per * codes.len(); let cfg = Cfg { iters: n as i64, c: 2.0, alpha, eps, ..Default::default() }.mcts();
                let row = if codes.len() > 1 { alpha_mcts(&s, &net, &cfg).map(|t| flat(&t)) } else { None };
                (s, codes, n, row)
            }).collect::<Vec<_>>()
        }) { Ok(x) => x, Err(m) => return viol("panic", m) };
        let (mut sq, mut esq, mut cnt) = (0.0, 0.0, 0u64);
        for (s, codes, n, row) in &res {
            if codes.len() < 2 { continue; } let row = match row { Some(r) => r, None => return viol("no-answer", format!("the single search gives nothing for {:?}", s)) };
            let top = codes.iter().map(|&c| l[c]).fold(f32::MIN, f32::max); let all = l.iter().cloned().fold(f32::MIN, f32::max);
            let e: Vec<f64> = if one && top < all { vec![1.0; codes.len()] } else { codes.iter().map(|&c| ((l[c] - top) as f64).exp()).collect() }; let sum: f64 = e.iter().sum();
            for (k, &c) in codes.iter().enumerate() {
                let prior = e[k] / sum; let visits = row[c] as f64 * *n as f64; let least = (1.0 - eps) * prior * *n as f64 - 1.0;
                ensure!(visits.is_finite() && visits >= least - 0.51 - 0.01 * *n as f64, "prior", "single search of {:?}: code {} got {:.0} of {} visits; the network's prior among {} plays is {:.4} and noise (parameter {}) has a share of {}, so it has at least {:.1}", s, c, visits, n, codes.len(), prior, alpha, eps, least);
                if eps == 0.0 { ensure!(visits <= prior * (*n + codes.len()) as f64 + 1.51, "prior", "single search of {:?} without noise: code {} got {:.0} of {} visits, its prior is {:.4}", s, c, visits, n, prior); }
            }
            let m: f64 = codes.iter().map(|&c| (row[c] as f64).powi(2)).sum(); sq += m; esq += (alpha + 1.0) / (codes.len() as f64 * alpha + 1.0); cnt += 1; out.state(mix(hash_f32s(row)));
            if one && top < all { out.probe("no legal play has weight"); }
        }
        if eps == 1.0 && cnt >= 15 { ensure!((sq - esq).abs() / (cnt as f64) < 0.3, "noise-shape", "single search with noise only, parameter {}: mean of the sum of squared shares {:.3}, a Dirichlet draw has {:.3}", alpha, sq / cnt as f64, esq / cnt as f64); }
        out.nontrivial = cnt > 0; out.probe_n("single searches", cnt); out.sample = json!({"game": G::name(), "alpha": alpha, "eps": eps, "searches": cnt, "one-sided": one});
        Ok(())
    })?;
    Ok(())
}
