//! C30, C31: the course of a learning run (which model plays, what it is trained on), and that nothing else changes a model.
use crate::ensure;
use crate::fw::*;
use crate::games::*;
use crate::scen_data::{agrees, faults, put};
use crate::scen_model::*;
use crate::scen_search::*;
use crate::scen_selfplay::{played_of, repeated_shares, shares_of, Played};
use crate::sim::{mix, Exit};
use crate::util::*;
use die_e::alphazero::alphazero::{AlphaZero, MemoryFragment};
use die_e::alphazero::nnet::ResNet;
use die_e::base::LearnableGame;
use die_e::mcts::alpha_mcts::{alpha_mcts, alpha_mcts_parallel};
use die_e::mcts::node_store::NodeStore;
use indicatif::ProgressBar;
use serde_json::json;
use std::path::PathBuf;
use tch::{nn::VarStore, Tensor};

fn h(e: impl ToString) -> Bad { Bad::H(e.to_string()) }
// ---------------------------------------------------------------- C30
pub fn gen_course(r: &mut Rng, _p: &str, thorough: bool, i: usize) -> Plan {
    let mut p = newplan(); gen_toy(r, &mut p, (1, 5)); let single = i % 3 != 0; let game = if single && i % 6 == 1 { 0 } else { 2 };
    put(&mut p, &[("game", json!(game)), ("single", json!(single as i64)), ("toy_inf", json!(0)), ("toy_pass", json!(*r.pick(&[0, 0, 100]))), ("toy_win", json!(*r.pick(&[0, 1]))), ("toy_k_win", json!(*r.pick(&[0, 200, 400]))), ("toy_k_draw", json!(0)), ("toy_branch", json!(r.range(2, 6))), ("toy_len_max", json!(r.range(2, if single { 6 } else { 3 }))),
        ("learn", json!(r.range(1, if thorough { 5 } else { 4 }))), ("sp", json!(r.range(1, 3))), ("n", json!(r.range(1, 4))), ("epochs", json!(*r.pick(&[0, 1, 1, 1, 1, 2, 3]))), ("iters", json!(if single { r.range(2, 30) } else { r.range(2, 8) })), ("limit", json!(r.range(4, 9))), ("lr", json!(*r.pick(&[0.001, 0.003, 0.01]))), ("wd", json!(*r.pick(&[0.0, 0.0001, 0.01]))), ("temperature", json!(*r.pick(&[0.5, 1.0, 1.25, 2.0]))), ("c", json!(*r.pick(&[1.0, 2.0, 4.0]))),
        ("seed_net", json!(r.next() >> 2)), ("start", json!(r.range(0, 2)))]);
    // small training batches: which examples each step uses shows in the statistics the first layer collects
    if i % 3 == 2 || i % 12 == 6 { put(&mut p, &[("tbatch", json!(r.range(1, 7))), ("lr", json!(1e-7)), ("wd", json!(0.0)), ("epochs", json!(*r.pick(&[1, 1, 1, 2, 3])))]); if r.chance(500) { put(&mut p, &[("sp", json!(1)), ("n", json!(1)), ("toy_len_max", json!(6))]); } }
    // rounds of more examples than a thousand
    if i % 60 == 35 { put(&mut p, &[("single", json!(0)), ("game", json!(2)), ("tbatch", json!(0)), ("learn", json!(1)), ("sp", json!(1)), ("n", json!(r.range(360, 400))), ("toy_len_min", json!(3)), ("toy_len_max", json!(3)), ("toy_pass", json!(0)), ("iters", json!(2)), ("epochs", json!(1)), ("lr", json!(0.003)), ("wd", json!(0.0))]); }
    p
}
pub fn run_course(p: &Plan, cx: &mut Ctx) -> Res { if p.i("game") == 0 { course_g::<WT>(p, cx) } else { course_g::<ToyD>(p, cx) } }
pub fn set_weights(vs: &VarStore, w: &Ws) { tch::no_grad(|| for (n, mut t) in vs.variables() { let k = format!("{}{:?}", n, t.size()); if let Some(x) = w.iter().find(|x| x.0 == k) { let s = t.size(); t.copy_(&Tensor::from_slice(&x.1).view(s.as_slice())); } }) }
fn of_weights<G: LearnableGame>(w: &Ws) -> ResNet { let n = ResNet::new::<G>(VarStore::new(tch::Device::Cpu)); set_weights(&n.vs, w); n }

fn course_g<G: Sg>(p: &Plan, cx: &mut Ctx) -> Res {
    let mut toy = toy_cfg(p); toy.all_legal = false; toy.inf_pm = 0; toy.games = 400; toy.pass_pm = toy.pass_pm.min(100);
    let (l, s, n, epochs, iters, limit, single, start, sn, lr, wd, temp) = (p.u("learn").max(1), p.u("sp").max(1), p.u("n").max(1), p.u("epochs"), p.u("iters").max(2), p.u("limit").max(4), p.i("single") != 0, p.i("start"), p.i("seed_net") as u64, p.f("lr").max(1e-7), p.f("wd"), p.f("temperature").max(0.1)); let tb = p.u("tbatch"); let small = tb > 0;
    let (lr, wd) = if small { (1e-7, 0.0) } else { (lr.max(1e-5), wd) };
    let cfg = Cfg { learn: l as i64, sp: s as i64, nsp: n as i64, epochs: epochs as i64, tbatch: if small { tb as i64 } else { 1_000_000 }, iters: iters as i64, limit: limit as i64, eps: 0.0, lr, wd, temperature: temp, c: p.f("c").max(0.1), ..Default::default() };
    let root = cx.root.clone(); let first = net::<G>(sn, if G::name() == "toy" { 0.05 } else { 1.0 }, if G::name() == "toy" { 0.02 } else { 0.5 });
    // a statistic far from what any batch shows tells how many batches there were
    if small { let w: Ws = weights(&first.vs).into_iter().map(|(n, mut v)| { if n.contains("running_mean") { v[0] += 1000.0; } (n, v) }).collect(); set_weights(&first.vs, &w); }
    if start == 1 { first.vs.save(root.join("given.ot")).map_err(h)?; } if start == 2 { let b = best_path::<G>(&root); std::fs::create_dir_all(b.parent().unwrap()).map_err(h)?; first.vs.save(&b).map_err(h)?; }
    cx.phase(&p.sim, |ch, out| {
        std::env::set_current_dir(&root).unwrap();
        let r = ch.sim(|| { record(toy, false, false); let mut az = cfg.az::<G>(if start == 1 { Some(PathBuf::from("given.ot")) } else { None }); let w0 = weights(&az.model.vs); record(toy, true, false); if single { az.learn::<G>() } else { az.learn_parallel::<G>() } (w0, weights(&az.model.vs)) });
        let (w0, wend) = match r { Ok(x) => x, Err(m) => return viol("panic", m) }; world().on = false;
        let mut roots = vec![]; for (root, last) in last_of_roots() { let path = path_to(last); if path.iter().any(|e| e.kind == Kind::SetId) || !path.iter().any(|e| matches!(e.kind, Kind::Apply | Kind::Skip)) { continue; } roots.push((root, last)); }
        let per = if single { s } else { s * n };
        ensure!(roots.len() == l * per, "games", "{} self-play games were played, {} iterations of {} are configured", roots.len(), l, per);
        let models: Vec<Ws> = (0..l).map(|i| file_weights::<G>(&root.join("models").join(G::name()).join(format!("model_{}.ot", i)))).collect::<Result<_, _>>().map_err(|e| Viol { class: "checkpoint".into(), msg: e })?;
        let what = format!("{} iterations of {} games, {} epochs, lr {}, wd {}{}", l, per, epochs, lr, wd, if single { " (one game at a time)" } else { "" });
        // the reference: its own optimiser over the whole run, its weights set to the stored ones after every iteration
        use tch::nn::OptimizerConfig; let net = of_weights::<G>(&w0); let mut opt = tch::nn::Adam::default().wd(wd).build(&net.vs, lr).unwrap();
        let mut names: Vec<(String, Tensor)> = net.vs.variables().into_iter().collect(); for x in names.iter_mut() { x.0 = format!("{}{:?}", x.0, x.1.size()); } names.sort_by(|a, b| a.0.cmp(&b.0)); let mut ok: Vec<(String, Vec<bool>)> = names.iter().map(|(n, t)| (n.clone(), vec![true; t.numel()])).collect();
        let (mut compared, mut examples, mut policies, mut worst_all) = (0usize, 0usize, 0u64, 0.0f64);
        for i in 0..l {
            let before = if i == 0 { &w0 } else { &models[i - 1] }; let player = of_weights::<G>(before);
            let games: Vec<Played<G>> = roots[i * per..(i + 1) * per].iter().map(|x| played_of::<G>(x.1, if single { usize::MAX } else { limit })).collect::<Result<_, _>>()?;
            let moves: Vec<(G, u32, i8)> = games.iter().flat_map(|g| g.moves.iter().map(|(st, c)| (*st, *c, match g.over { Some(x) => result_for(x, st.get_player()) as i8, None => 0 }))).collect();
            let mut data: Vec<MemoryFragment> = vec![];
            if single {
                for (k, (st, code, o)) in moves.iter().enumerate() {
                    let pi = match alpha_mcts(st, &player, &cfg.mcts()) { Some(x) => x, None => return viol("other-model", format!("iteration {}: a move was made in {:?}, but searching it again gives none", i, st)) };
                    let v = flat(&pi); ensure!(v.iter().all(|x| x.is_finite()) && v[*code as usize] > 0.0, "other-model", "iteration {} move {}: code {} was played in {:?}; searching it again with the model as trained by then gives it no visit ({})", i, k, code, st, what);
                    let pi = pi.pow_tensor_scalar(1.0 / temp); data.push(MemoryFragment { outcome: *o, ps: &pi / pi.sum(tch::Kind::Float), state: st.as_tensor() });
                }
            } else {
                let runs: Vec<PathBuf> = std::fs::read_dir(root.join("data").join(G::name())).map(|r| r.flatten().map(|e| e.path()).collect()).unwrap_or_default(); ensure!(runs.len() == 1, "stored", "{} run directories", runs.len());
                for j in 0..s { let d = runs[0].join(format!("lrn-{}", i)).join(format!("sp-{}", j)); data.extend(std::panic::catch_unwind(|| AlphaZero::load_training_data(&d)).map_err(|_| Viol { class: "stored".into(), msg: format!("the examples of iteration {} round {} can't be loaded", i, j) })?); }
                ensure!(data.len() == moves.len(), "stored", "{} moves were made in iteration {}, {} examples are stored", moves.len(), i, data.len());
                // the games were played with the model as trained by then
                for (st, _, _) in moves.iter().filter(|m| m.0.get_valid_moves().len() > 1).take(12) {
                    let k = hash_f32s(&flat(&st.as_tensor())); let mine: Vec<&MemoryFragment> = data.iter().filter(|m| hash_f32s(&flat(&m.state)) == k).collect(); if mine.len() != 1 { continue; }
                    let have = match shares_of(&flat(&mine[0].ps), temp, iters) { Some(v) => v, None => continue };
                    if let Some(v) = repeated_shares(st, &player, &cfg, iters)? { policies += 1; ensure!(have == v, "other-model", "iteration {}: the example of {:?} has shares {:?}; searching it with the model as trained by then gives {:?} ({})", i, st, have.iter().enumerate().filter(|x| *x.1 > 0).collect::<Vec<_>>(), v.iter().enumerate().filter(|x| *x.1 > 0).collect::<Vec<_>>(), what); }
                }
            }
            if small { let (k, exact) = batches_used::<G>(before, &models[i], &data, tb, epochs).map_err(|m| Viol { class: "other-batches".into(), msg: format!("iteration {}: {} ({} examples in batches of {}; {})", i, m, data.len(), tb, what) })?; out.probe_n("training steps counted", k as u64); if exact { out.probe("order of the examples found"); } examples += data.len(); continue; }
            if !data.is_empty() { for _ in 0..epochs {
                let xs = Tensor::concat(&data.iter().map(|m| if m.state.dim() == 3 { m.state.unsqueeze(0) } else { m.state.shallow_clone() }).collect::<Vec<_>>(), 0); let ps = Tensor::stack(&data.iter().map(|m| m.ps.shallow_clone()).collect::<Vec<_>>(), 0);
                let z = Tensor::from_slice(&data.iter().map(|m| m.outcome as f32).collect::<Vec<_>>()).unsqueeze(1);
                let (lp, v) = net.forward_train(&xs, true);
                let ce = -(lp.log_softmax(1, tch::Kind::Float) * &ps).sum_dim_intlist(1, false, tch::Kind::Float).mean(tch::Kind::Float); let mse = (v - z).square().mean(tch::Kind::Float);
                opt.zero_grad(); (ce + mse).backward();
                for ((_, t), (_, o)) in names.iter().zip(ok.iter_mut()) { if t.requires_grad() { let g = t.grad(); if g.defined() { let w = flat(&t.detach()); let g = flat(&g); let least = 2e-4f64.max(0.02 * g.iter().fold(0.0f32, |a, x| a.max(x.abs())) as f64); for (k, x) in g.iter().enumerate() { if !((*x as f64 + wd * w[k] as f64).abs() > least) { o[k] = false; } } } } }
                opt.step();
            } }
            let (good, cnt, worst) = agrees(&models[i], &(weights(&net.vs), ok.clone()), lr, epochs.max(1)); compared += cnt; examples += data.len(); worst_all = worst_all.max(worst);
            // several epochs amplify differences in weights whose gradient says nothing; then most weights have to agree
            let (mut off, mut all) = (0usize, 0usize); let now = weights(&net.vs); for ((a, b), (_, o)) in models[i].iter().zip(&now).zip(&ok) { if a.0.contains("running") { continue; } for k in 0..a.1.len() { if o[k] { all += 1; if !((a.1[k] - b.1[k]).abs() as f64 <= 0.25 * lr + 1e-6) { off += 1; } } } }
            let part = off as f64 / all.max(1) as f64;
            let good = if epochs <= 1 { good } else { part < 0.1 };
            ensure!(good, "other-training", "iteration {}: training the model on the {} examples of this iteration for {} epochs gives weights that differ from the stored model by {:.1} tolerances ({})", i, data.len(), epochs, worst, what);
            if epochs == 0 || data.is_empty() { ensure!(same_weights(&models[i], before), "other-training", "iteration {}: nothing was to be trained, but the model changed ({})", i, what); } else { ensure!(whash(&models[i]) != whash(before), "not-trained", "iteration {}: {} examples, {} epochs, but the model is as before ({})", i, data.len(), epochs, what); }
            set_weights(&net.vs, &models[i]);
        }
        ensure!(same_weights(&wend, &models[l - 1]), "end", "the model differs from its last checkpoint after the run ({})", what);
        out.nontrivial = examples > 0; out.probe_n("weights compared", compared as u64); out.probe_n("examples trained on", examples as u64); out.probe_n("policies compared with a repeated search", policies); out.probe_n("iterations", l as u64);
        out.state(mix(examples as u64) ^ whash(&wend)); out.sample = json!({"game": G::name(), "iterations": l, "games per iteration": per, "epochs": epochs, "examples": examples, "single": single, "worst difference in tolerances": worst_all});
        Ok(())
    })?;
    Ok(())
}

/// With almost no learning rate, training only moves the running statistics, and the first layer's by a fixed part of every batch's mean.
/// They show how many batches there were and, for few examples, whether some order of the examples explains them.
pub fn batches_used<G: LearnableGame>(before: &Ws, after: &Ws, data: &[MemoryFragment], b: usize, epochs: usize) -> Result<(usize, bool), String> {
    let means = |idx: &[usize]| -> Ws { let n = of_weights::<G>(before); let xs = Tensor::concat(&idx.iter().map(|&i| { let s = &data[i].state; if s.dim() == 3 { s.unsqueeze(0) } else { s.shallow_clone() } }).collect::<Vec<_>>(), 0); let _ = n.forward_train(&xs, true); weights(&n.vs).into_iter().filter(|x| x.0.contains("running_mean")).collect() };
    let pick = |w: &Ws| -> Ws { w.iter().filter(|x| x.0.contains("running_mean")).cloned().collect() }; let (old, new) = (pick(before), pick(after));
    let steps = epochs * data.len().div_ceil(b); if steps == 0 { return Ok((0, false)); } if data.len() > 400 { return Ok((0, false)); }
    let one: Vec<Ws> = (0..data.len()).map(|i| means(&[i])).collect();
    // what a batch of one moves them by, and the layers where a larger batch is the mean of that
    let groups: Vec<Vec<usize>> = { let k = data.len().min(7); let mut v = vec![(0..data.len()).collect()]; for i in 0..k { for j in 0..i { v.push(vec![j, i]); } } v }; let joint: Vec<Ws> = groups.iter().map(|g| means(g)).collect(); let mut exact = false; let mut any = false;
    for (l, (o, n)) in old.iter().zip(&new).enumerate() {
        let m: Vec<Vec<f64>> = one.iter().map(|w| w[l].1.iter().zip(&o.1).map(|(x, y)| (*x as f64 - 0.9 * *y as f64) / 0.1).collect()).collect(); let ch = o.1.len();
        let scale: Vec<f64> = (0..ch).map(|c| m.iter().map(|v| v[c].abs()).fold(0.0, f64::max) * 2e-3 + 1e-4 + 3e-6 * (o.1[c].abs() as f64) * (1.0 + steps as f64)).collect();
        let lin = groups.iter().zip(&joint).all(|(g, w)| (0..ch).all(|c| { let a = (w[l].1[c] as f64 - 0.9 * o.1[c] as f64) / 0.1; (a - g.iter().map(|&i| m[i][c]).sum::<f64>() / g.len() as f64).abs() <= scale[c] })); if !lin || data.len() < 2 && l > 0 { continue; }
        any = true; let keep = 0.9f64.powi(steps as i32);
        for c in 0..ch { let x = n.1[c] as f64 - keep * o.1[c] as f64; let (lo, hi) = (m.iter().map(|v| v[c]).fold(f64::MAX, f64::min) * (1.0 - keep), m.iter().map(|v| v[c]).fold(f64::MIN, f64::max) * (1.0 - keep));
            if !(x >= lo - scale[c] && x <= hi + scale[c]) { return Err(format!("{} training steps are due, but the statistics of the first layer ({}, channel {}) went from {} to {}; steps on these examples leave {} to {}", steps, o.0, c, o.1[c], n.1[c], keep * o.1[c] as f64 + lo, keep * o.1[c] as f64 + hi)); } }
        if epochs == 1 && data.len() <= 7 {
            let fits = crate::scen_data::perms(data.len()).iter().any(|p| (0..ch).all(|c| { let mut x = o.1[c] as f64; for q in p.chunks(b) { x = 0.9 * x + 0.1 * q.iter().map(|&e| m[e][c]).sum::<f64>() / q.len() as f64; } (x - n.1[c] as f64).abs() <= scale[c] }));
            if !fits { return Err(format!("no order of the examples, each used once in {} steps, explains the statistics of {}", steps, o.0)); } exact = true;
        }
    }
    Ok((if any { steps } else { 0 }, exact))
}

// ---------------------------------------------------------------- C31
const OPS: [&str; 9] = ["a batched search", "a search", "a batch of self-play", "choosing a move", "a self-play game", "saving and loading it", "training on nothing", "a match against another model", "a match against the best model"];
pub fn gen_inert(r: &mut Rng, _p: &str, thorough: bool, i: usize) -> Plan {
    let mut p = newplan(); let game = [2, 0, 3, 2, 1][i % 5]; gen_toy(r, &mut p, (1, 4)); let k = r.range(1, if thorough { 8 } else { 4 });
    let preps: Vec<i64> = (0..r.range(1, 5)).map(|_| match game { 0 => r.range(0, 9), 1 => if r.chance(600) { -r.range(0, 4) } else { r.range(0, 120) }, _ => r.range(0, 4) }).collect();
    put(&mut p, &[("game", json!(game)), ("seed", json!(r.next() >> 2)), ("seed_net", json!(r.next() >> 2)), ("preps", json!(preps)), ("iters", json!(if game == 1 { r.range(1, 4) } else { r.range(1, 12) })), ("limit", json!(r.range(1, 6))), ("n", json!(r.range(1, 3))), ("eps", json!(*r.pick(&[0.0, 0.25]))), ("toy_inf", json!(0)), ("toy_pass", json!(*r.pick(&[0, 200]))),
        ("ops", json!((0..k).map(|_| if game == 2 && r.chance(200) { r.range(7, 8) } else { r.range(0, 6) }).collect::<Vec<_>>()))]);
    p
}
pub fn run_inert(p: &Plan, cx: &mut Ctx) -> Res { by_game!(p.i("game"), inert_g(p, cx)) }
fn bits(v: &[(Vec<f32>, f32)]) -> Vec<u32> { v.iter().flat_map(|(p, x)| p.iter().chain([x]).map(|y| y.to_bits()).collect::<Vec<_>>()).collect() }
fn inert_g<G: Sg>(p: &Plan, cx: &mut Ctx) -> Res {
    let mut toy = toy_cfg(p); toy.all_legal = false; toy.inf_pm = 0; let root = cx.root.clone(); let pl = p.clone();
    let cfg = Cfg { iters: p.i("iters").max(1), limit: p.i("limit").max(1), nsp: p.i("n").max(1), eps: p.f("eps"), ..Default::default() };
    let ops: Vec<usize> = p.ints("ops").iter().map(|&x| x.clamp(0, 8) as usize).map(|x| match G::name().as_str() { "toy" if G::IS_DETERMINISTIC => x, "backgammon" if x == 4 => 2, _ if x > 6 => 3, _ => x }).collect();
    cx.phase(&p.sim, |ch, out| {
        std::env::set_current_dir(&root).unwrap(); std::fs::create_dir_all(root.join("models").join(G::name())).unwrap();
        let r = ch.sim(|| -> Result<(usize, Vec<(Vec<f32>, f32)>, Vec<G>), Viol> {
            record(toy, false, false); let mut az = cfg.az::<G>(None); az.model = make_net::<G>(&pl); let mut rng = Rng::new(pl.i("seed") as u64);
            let mut states: Vec<G> = pl.ints("preps").iter().enumerate().map(|(i, &k)| position::<G>(&mut rng, k, i)).filter(|s| s.check_winner().is_none()).collect(); if states.is_empty() { let mut s = G::new(); if !G::IS_DETERMINISTIC { s.roll_die(); } states.push(s); }
            let w0 = weights(&az.model.vs); let e0 = evals(&az.model, &states); let mut done = 0;
            for &op in &ops {
                let st = states[rng.below(states.len() as u64) as usize];
                match op {
                    0 => { let mut store = NodeStore::new(); alpha_mcts_parallel(&mut store, &states, &az.model, &cfg.mcts(), Some(ProgressBar::hidden())); }
                    1 => { alpha_mcts(&st, &az.model, &cfg.mcts()); }
                    2 => { az.self_play_parallel::<G>(); }
                    3 => { if !st.get_valid_moves().is_empty() { az.get_next_move_for_state(&st); } }
                    4 => { az.self_play::<G>(); }
                    5 => { let f = PathBuf::from("saved.ot"); az.save_current_model(&f).map_err(|e| Viol { class: "save".into(), msg: e.to_string() })?; let n = ResNet::from_path::<G>(&f); ensure!(same_weights(&weights(&n.vs), &w0), "not-the-same", "a model saved and loaded again is another model"); ensure!(bits(&evals(&n, &states)) == bits(&e0), "not-the-same", "a model saved and loaded again evaluates positions differently"); az.model = n; }
                    6 => { az.train(&mut vec![]); }
                    _ => { let other = net::<G>(pl.i("seed_net") as u64 ^ 5, 0.05, 0.02); let ow = weights(&other.vs); let vars = other.vs.variables(); record(toy, false, false);
                        if op == 7 { az.play_vs_model::<G>(other); let mut now: Ws = vars.iter().map(|(n, t)| (format!("{}{:?}", n, t.size()), flat(t))).collect(); now.sort_by(|a, b| a.0.cmp(&b.0)); ensure!(same_weights(&now, &ow), "changed", "a match changed the model played against"); }
                        else { let b = best_path::<G>(&root); other.vs.save(&b).unwrap(); az.play_vs_best_model::<G>(); let now = file_weights::<G>(&b); ensure!(same(&now, &ow) || same(&now, &w0), "best-changed", "after a match of the current model against the best one, the best model is neither of them"); } }
                }
                ensure!(same_weights(&weights(&az.model.vs), &w0), "changed", "{} changed the model ({} differs)", OPS[op], weights(&az.model.vs).iter().zip(&w0).find(|(a, b)| a.1.iter().map(|x| x.to_bits()).ne(b.1.iter().map(|x| x.to_bits()))).map(|x| x.0 .0.clone()).unwrap_or_default());
                ensure!(bits(&evals(&az.model, &states)) == bits(&e0), "evaluates-differently", "after {} the model evaluates positions differently", OPS[op]); done += 1;
            }
            Ok((done, e0, states))
        });
        let (done, e0, states) = match r { Ok(x) => x?, Err(m) => return viol("panic", m) };
        for &op in &ops { out.probe(OPS[op]); } out.nontrivial = done > 0;
        // a position's evaluation is its own: alone, or in a batch of any order
        let net = make_net::<G>(&pl); let close = |a: &(Vec<f32>, f32), b: &(Vec<f32>, f32)| (a.1 - b.1).abs() < 1e-4 && a.0.iter().zip(&b.0).all(|(x, y)| (x - y).abs() < 1e-4 + 1e-3 * y.abs());
        let mut back = states.clone(); back.reverse(); let mut eb = evals(&net, &back); eb.reverse();
        for (i, s) in states.iter().enumerate() { let one = &evals(&net, &[*s])[0]; ensure!(close(one, &e0[i]) && close(&eb[i], &e0[i]), "depends-on-batch", "{:?} is evaluated as {} alone, {} and {} among {} positions", s, one.1, e0[i].1, eb[i].1, states.len()); ensure!((one.0.iter().sum::<f32>() - 1.0).abs() < 1e-3 && one.1.abs() <= 1.0, "no-evaluation", "{:?}: the policy sums to {}, the value is {}", s, one.0.iter().sum::<f32>(), one.1); out.probe("evaluations compared"); }
        out.state(hash_str(&format!("{:?}{:?}", ops, bits(&e0).first()))); out.sample = json!({"game": G::name(), "operations": ops.iter().map(|&o| OPS[o]).collect::<Vec<_>>(), "positions": states.len()});
        Ok(())
    })?;
    Ok(())
}

// ---------------------------------------------------------------- C32
// Several processes work in one directory: each is a thread of the simulated run, every file operation a scheduling point.
pub fn gen_shared(r: &mut Rng, _p: &str, _t: bool, i: usize) -> Plan {
    let mut p = newplan(); gen_toy(r, &mut p, (2, 6)); let acts = r.range(2, 4); // 0 saves, 1 reads
    let mut kinds: Vec<i64> = (0..acts).map(|_| r.range(0, 1)).collect(); kinds[0] = 0;
    put(&mut p, &[("kind", json!([0, 2, 0, 1][i % 4])), ("acts", json!(kinds)), ("times", json!(r.range(1, 3))), ("seed_net", json!(r.next() >> 2)), ("seed", json!(r.next() >> 2)), ("missing", json!((r.below(5) == 0) as i64)), ("toy_inf", json!(0))]);
    p.sim.sched_mode = 1; p.sim.fs_sched = true; p.sim.preempt_pm = *r.pick(&[100, 300, 600]);
    match i % 5 { 3 => p.sim.faults = faults(r, 'm', 30, &["enospc", "eio", "eacces", "short", "eintr"]), 4 => p.sim.faults = faults(r, 'm', 30, &["kill", "tornkill", "power", "tornpower", "short"]), 2 if r.chance(300) => p.sim.full_after = Some(r.below(200_000)), _ => {} }
    p
}
#[derive(serde::Serialize, serde::Deserialize, Clone, Debug)]
struct Did { who: usize, read: bool, from: u64, to: u64, /// what was saved or found: for models a digest of the weights, for games the digests of all of them
    what: Vec<u64>, ok: bool, msg: String }
static TICK: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
fn tick() -> u64 { TICK.fetch_add(1, std::sync::atomic::Ordering::SeqCst) }
pub fn run_shared(p: &Plan, cx: &mut Ctx) -> Res {
    type G = ToyD; let mut toy = toy_cfg(p); toy.inf_pm = 0; let kind = p.i("kind").clamp(0, 2); let acts: Vec<i64> = p.ints("acts").into_iter().take(5).collect(); let times = p.u("times").clamp(1, 4); let (sn, sg) = (p.i("seed_net") as u64, p.i("seed") as u64); let missing = p.i("missing") != 0;
    let root = cx.root.clone(); let dir = if kind == 2 { root.join("games") } else { root.join("models").join("toy") }; std::fs::create_dir_all(&dir).map_err(h)?; let file = if kind == 1 { dir.join("m.safetensors") } else { dir.join("best_model.ot") };
    let model = move |who: usize, k: usize| net::<G>(mix(sn ^ ((who as u64) << 8) ^ k as u64), 0.5, 0.5);
    let first = net::<G>(sn ^ 0xf1, 0.5, 0.5); let w_first = whash(&weights(&first.vs)); if kind < 2 && !missing { first.vs.save(&file).map_err(h)?; }
    let known: Vec<u64> = acts.iter().enumerate().filter(|a| *a.1 == 0).flat_map(|(t, _)| (0..times).map(move |k| whash(&weights(&model(t, k).vs)))).chain(if missing { None } else { Some(w_first) }).collect();
    let f2 = file.clone(); let d2 = dir.clone(); let cfg = Cfg::default(); let acts2 = acts.clone();
    let (e, o, _) = cx.phase_raw(&p.sim, |ch, out| {
        std::env::set_current_dir(&root).unwrap(); out.nontrivial = acts2.len() > 1;
        let r = ch.sim(|| {
            record(toy, false, false); let mut hs = vec![];
            for (t, &a) in acts2.iter().enumerate() {
                let (file, dir, cfg) = (f2.clone(), d2.clone(), cfg.clone()); let nets: Vec<ResNet> = if a == 0 && kind < 2 { (0..times).map(|k| model(t, k)).collect() } else { vec![] };
                hs.push(std::thread::spawn(move || { let mut did: Vec<Did> = vec![]; for k in 0..times {
                    let from = tick(); let caught = |f: &mut dyn FnMut() -> Result<Vec<u64>, String>| -> (Vec<u64>, bool, String) { match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) { Ok(Ok(v)) => (v, true, String::new()), Ok(Err(m)) => (vec![], false, m), Err(e) => (vec![], false, crate::sim::panic_msg(&e)) } };
                    let (what, ok, msg) = if a == 0 {
                        if kind < 2 { let d = whash(&weights(&nets[k].vs)); let (_, ok, m) = caught(&mut || nets[k].save(&file).map(|_| vec![]).map_err(|e| e.to_string())); (vec![d], ok, m) }
                        else { let g = crate::scen_cli::made_game::<G>(mix(sg ^ ((t as u64) << 8) ^ k as u64), 3 + k).0; let d = digest(&g); let (_, ok, m) = caught(&mut || die_e::versus::save_game(&g, dir.to_str().unwrap()).map(|_| vec![]).map_err(|e| e.to_string())); (vec![d], ok, m) }
                    } else if kind == 2 { caught(&mut || die_e::versus::load_all_games::<G>(dir.clone()).map(|v| v.iter().map(digest).collect()).map_err(|e| e.to_string())) }
                    else if kind == 0 && k % 2 == 1 { caught(&mut || { let az = cfg.az::<G>(None); Ok(vec![whash(&weights(&az.model.vs))]) }) }
                    else { caught(&mut || Ok(vec![whash(&weights(&ResNet::from_path::<G>(&file).vs))])) };
                    did.push(Did { who: t, read: a != 0, from, to: tick(), what, ok, msg: msg.lines().next().unwrap_or("").chars().take(200).collect() });
                } did }));
            }
            let mut all = vec![]; for h in hs { match h.join() { Ok(v) => all.extend(v), Err(_) => {} } } all
        });
        match r { Ok(v) => { out.data = json!(v); Ok(()) } Err(m) => viol("panic", m) }
    })?;
    if let Some(v) = o.v { return Err(v.into()); }
    if matches!(e, Exit::StepCap | Exit::Deadlock | Exit::CpuCap | Exit::Wall) { exit_ok(&e)?; }
    let faulty = !cx.stats_faultless(); let died = e != Exit::Ok; if died && !faulty { exit_ok(&e)?; }
    let did: Vec<Did> = serde_json::from_value(o.data.clone()).unwrap_or_default(); let name = if kind == 2 { "the games" } else { "the model" };
    cx.out.state(hash_str(&format!("{:?}", did.iter().map(|d| (d.who, d.from, d.to, d.ok)).collect::<Vec<_>>()))); cx.out.sample = json!({"kind": (["model file", "safetensors file", "game records"][kind as usize]), "processes": acts.len(), "died": died, "operations": did.len(), "overlapping": did.iter().filter(|a| did.iter().any(|b| b.who != a.who && b.from < a.to && a.from < b.to)).count()});
    for d in &did { cx.out.probe(match (d.read, d.ok) { (true, true) => "read", (true, false) => "read refused", (false, true) => "saved", _ => "save failed" }); if did.iter().any(|b| b.who != d.who && b.from < d.to && d.from < b.to) { cx.out.probe("overlapping operation"); } }
    let saves: Vec<&Did> = did.iter().filter(|d| !d.read).collect();
    let fail = |c: &str, m: String| viol::<()>(c, m).map_err(Bad::V);
    for d in &did {
        if !d.ok && (d.read || !faulty) {
            let none_yet = kind < 2 && missing && d.read && !saves.iter().any(|s| s.ok && s.to < d.from);
            // a fault that hit the reader itself
            let hit = faulty && ["os error 4)", "os error 5)", "os error 13)", "os error 28)"].iter().any(|e| d.msg.contains(e));
            if !none_yet && !hit { return fail(if d.read { "read-fails" } else { "save-fails" }, format!("{} {} while others {}: it fails although nothing is wrong: {}", if d.read { "reading" } else { "saving" }, name, if d.read { "save" } else { "save and read" }, d.msg)); }
        }
        if d.read && d.ok && kind < 2 {
            let v = d.what[0]; let src: Vec<&&Did> = saves.iter().filter(|s| s.what[0] == v).collect(); let initial = !missing && v == w_first;
            if src.is_empty() && !initial { if missing && !saves.iter().any(|s| s.ok && s.to < d.from) { continue; } return fail("mixed-model", format!("reading the model while others save it gives a model nobody saved ({} processes)", acts.len())); }
            // it may not have been replaced for good before
            let since = if initial { 0 } else { src[0].to }; if !initial && src[0].from > d.to { return fail("mixed-model", "a model was read before it was saved".into()); }
            if let Some(s) = saves.iter().find(|s| s.ok && s.what[0] != v && s.from >= since && s.to < d.from) { return fail("stale-model", format!("a model is read that process {} had replaced before (reported as saved at {}, read from {} on)", s.who, s.to, d.from)); }
        }
        if d.read && d.ok && kind == 2 {
            for g in &d.what { if !saves.iter().any(|s| s.what[0] == *g && s.from < d.to) { return fail("foreign-game", "a game is read that nobody saved".into()); } }
            if let Some(s) = saves.iter().find(|s| s.ok && s.to < d.from && !d.what.contains(&s.what[0])) { return fail("game-missing", format!("a game reported as saved by process {} is not among the {} games read later", s.who, d.what.len())); }
        }
    }
    // what is left when all are done or dead
    let last_ok = saves.iter().filter(|s| s.ok).map(|s| s.from).max();
    if kind < 2 {
        let w = file_weights::<G>(&file); let v = w.as_ref().map(|w| whash(w));
        match v { Err(m) => { if !(missing && last_ok.is_none() && !file.exists()) { return fail("left-damaged", format!("after {} processes saved the model {} times each{}, it can't be read: {}", acts.iter().filter(|a| **a == 0).count(), times, if died { " until a crash" } else { "" }, m)); } }
            Ok(v) => { if !known.contains(&v) { return fail("mixed-model", "the model file holds a model nobody saved".into()); }
                if !died { let latest = saves.iter().filter(|s| s.ok).map(|s| s.from).max().unwrap_or(0); let mine = saves.iter().find(|s| s.what[0] == v); let end = mine.map_or(0, |s| if s.ok { s.to } else { u64::MAX }); if let (true, Some(s)) = (end < latest, saves.iter().find(|s| s.ok && s.from > end && s.what[0] != v)) { return fail("lost-save", format!("process {} reported its model as saved, but an older one is left", s.who)); } } } }
    } else {
        let d3 = dir.clone(); let o = cx.phase(&clean(p, 5), |ch, out| { let r = ch.sim(|| { record(toy, false, false); die_e::versus::load_all_games::<G>(d3.clone()).map(|v| v.iter().map(digest).collect::<Vec<_>>()).map_err(|e| e.to_string()) }); match r { Ok(Ok(v)) => { out.data = json!(v); Ok(()) } Ok(Err(m)) | Err(m) => viol("left-damaged", format!("the games can't be loaded any more after {} processes saved and read them: {}", acts.len(), m)) } })?;
        let have: Vec<u64> = serde_json::from_value(o.data).unwrap_or_default(); if let Some(s) = saves.iter().find(|s| s.ok && !have.contains(&s.what[0])) { return fail("game-missing", format!("a game reported as saved by process {} is not there in the end", s.who)); }
    }
    Ok(())
}
fn digest(g: &die_e::versus::Game<ToyD>) -> u64 { hash_str(&serde_json::to_value(g).map(|v| v.to_string()).unwrap_or_default()) }
