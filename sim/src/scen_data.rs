//! C14, C16: training data on disk; one training pass against a reference.
use crate::ensure;
use crate::fw::*;
use crate::games::*;
use crate::sim::{mix, Exit, Fault, SimCfg};
use crate::util::*;
use die_e::alphazero::alphazero::{AlphaZero, MemoryFragment};
use die_e::base::LearnableGame;
use serde_json::json;
use tch::Tensor;

pub fn put(p: &mut Plan, kv: &[(&str, serde_json::Value)]) { for (k, v) in kv { p.p.insert(k.to_string(), v.clone()); } }
/// Random faults on mutating operations (class m) or reads (class r).
pub fn faults(r: &mut Rng, cls: char, max: u64, kinds: &[&str]) -> Vec<Fault> {
    let n = if r.chance(750) { 1 } else { 2 }; (0..n).map(|_| Fault { cls, idx: r.below(max), kind: r.pick(kinds).to_string(), arg: r.next() >> 40 }).collect()
}
pub const SAVE_KINDS: [&str; 9] = ["enospc", "eio", "eintr", "short", "kill", "power", "tornkill", "tornpower", "eacces"];
pub const STAT_KINDS: [&str; 2] = ["eio", "eacces"];
pub const READ_KINDS: [&str; 4] = ["eio", "eintr", "short", "eacces"];

/// Made-up examples of the shape of a game: positions, policies, outcomes.
pub fn examples<G: LearnableGame>(seed: u64, n: usize, smooth: bool) -> Vec<MemoryFragment> {
    let shape = { let mut g = G::new(); if !G::IS_DETERMINISTIC { g.roll_die(); } g.as_tensor().size() }; let len: i64 = shape.iter().product();
    (0..n).map(|i| {
        let mut r = Rng::new(seed ^ mix(i as u64)); let st: Vec<f32> = (0..len).map(|_| if smooth { (r.f() * 2.0 - 0.5) as f32 } else { r.below(16) as f32 / 15.0 }).collect();
        let mut ps = vec![0f32; G::ACTION_SPACE_SIZE as usize]; let k = 1 + r.below(6); for _ in 0..k { let a = r.below(ps.len() as u64) as usize; ps[a] = (r.f() * 0.9 + 0.05) as f32; }
        MemoryFragment { outcome: r.range(-1, 1) as i8, ps: Tensor::from_slice(&ps), state: Tensor::from_slice(&st).view(shape.as_slice()) }
    }).collect()
}
pub type Flat = (i8, Vec<u32>, Vec<u32>);
pub fn flatten(m: &MemoryFragment) -> Flat { let b = |t: &Tensor| flat(t).iter().map(|x| x.to_bits()).collect(); (m.outcome, b(&m.ps), b(&m.state)) }
pub fn brief(f: &Flat) -> String { format!("(outcome {}, {} policy values, {} position values, digest {:x})", f.0, f.1.len(), f.2.len(), hash_str(&format!("{:?}", f))) }

macro_rules! by_shape { ($g:expr, $f:ident ( $($a:expr),* )) => { match $g { 0 => $f::<WT>($($a),*), 1 => $f::<WB>($($a),*), _ => $f::<ToyD>($($a),*) } } }
pub(crate) use by_shape;

// ---------------------------------------------------------------- C14
pub fn gen_store(r: &mut Rng, _p: &str, thorough: bool, i: usize) -> Plan {
    let mut p = newplan(); let g = r.range(0, 2);
    put(&mut p, &[("game", json!(g)), ("n", json!(match i % 4 { 0 => 1, 1 => 2, _ => r.range(1, if g == 1 { 12 } else if thorough { 200 } else { 40 }) })), ("seed_data", json!(r.next() >> 2)), ("from_play", json!(r.below(3) == 0)), ("read_fault", json!(0))]);
    if i % 30 == 25 { put(&mut p, &[("game", json!(2 * r.below(2))), ("n", json!(r.range(257, 3000))), ("from_play", json!(false))]); }
    if i % 30 == 11 { put(&mut p, &[("game", json!(1)), ("n", json!(r.range(30, 300))), ("from_play", json!(false))]); }
    match i % 6 { 0 => {} 1 => { let n = p.i("n"); let over = match r.below(4) { 0 => 0, 1 => n, 2 => n + r.range(1, 5), _ => r.range(1, n) }; p.p.insert("over".into(), json!(over)); } 2 | 3 => p.sim.faults = faults(r, 'm', 48, &SAVE_KINDS), 4 => p.sim.full_after = Some(r.below(60_000)), _ => { p.p.insert("read_fault".into(), json!(1)); p.sim.faults = faults(r, 'r', 60, &READ_KINDS); if r.chance(250) { p.sim.faults = faults(r, 's', 6, &STAT_KINDS); } } }
    p
}
pub fn run_store(p: &Plan, cx: &mut Ctx) -> Res { by_shape!(p.i("game"), store_g(p, cx)) }
fn store_g<G: LearnableGame>(p: &Plan, cx: &mut Ctx) -> Res {
    let n = p.u("n").max(1); let seed = p.i("seed_data") as u64; let read = p.i("read_fault") != 0; let dir = cx.root.join("stored"); std::fs::create_dir_all(&dir).map_err(|e| Bad::H(e.to_string()))?;
    let make = move || { record(ToyCfg::DEF, false, false); examples::<G>(seed, n, p.i("from_play") == 0) };
    // other examples saved in the same place before, without faults
    let over = if p.sim.faults.is_empty() && p.sim.full_after.is_none() && !read { p.u("over") } else { 0 };
    if over > 0 { let d = dir.clone(); let (e, o, _) = cx.phase_raw(&p.sim.quiet(3), |ch, out| { record(ToyCfg::DEF, false, false); let data = examples::<G>(seed ^ 0x77, over, true); if let Err(m) = ch.sim(move || { let az = Cfg::default().az::<G>(None); az.save_training_data(&data, &d); }) { return viol("save-fails", m); } out.probe("saved over other examples"); Ok(()) })?; if let Some(v) = o.v { return Err(v.into()); } exit_ok(&e)?; }
    let wcfg = if read { p.sim.quiet(7) } else { p.sim.clone() };
    let d = dir.clone();
    let (exit, o, _) = cx.phase_raw(&wcfg, |ch, out| {
        let data = make(); let (d2, r) = (d.clone(), &data);
        let res = ch.sim(move || { let az = Cfg::default().az::<G>(None); az.save_training_data(r, &d2); });
        out.nontrivial = true; out.data = json!({"reported": res.as_ref().err().map(|e| e.chars().take(200).collect::<String>())});
        let want: Vec<Flat> = make().iter().map(flatten).collect(); ensure!(data.iter().map(flatten).collect::<Vec<_>>() == want, "altered", "saving altered the examples in memory");
        Ok(())
    })?;
    if let Some(v) = o.v { return Err(v.into()); }
    if !matches!(exit, Exit::Ok | Exit::Crash) { exit_ok(&exit)?; }
    let saved = exit == Exit::Ok && o.data["reported"].is_null(); cx.out.probe(if saved { "saved" } else if exit == Exit::Crash { "died while saving" } else { "save refused" });
    if !saved && exit == Exit::Ok && wcfg.faults.is_empty() && wcfg.full_after.is_none() { return Err(Viol { class: "save-fails".into(), msg: format!("saving {} examples failed without any fault: {}", n, o.data["reported"]) }.into()); }
    let rcfg = if read { p.sim.clone() } else { SimCfg { faults: vec![], full_after: None, ..p.sim.quiet(8) } };
    let (exit, o, _) = cx.phase_raw(&rcfg, |ch, out| {
        let d2 = dir.clone(); let res = ch.sim(move || AlphaZero::load_training_data(&d2).iter().map(flatten).collect::<Vec<_>>());
        match res {
            Err(m) => { out.probe("load refused"); ensure!(!saved || read, "lost", "{} examples were saved without a reported failure, but loading fails: {}", n, m); }
            Ok(got) => {
                let want: Vec<Flat> = make().iter().map(flatten).collect(); out.probe(if saved { "loaded" } else { "loaded although saving failed" });
                ensure!(got.len() == want.len(), "changed", "{} examples were saved ({}), {} are loaded", want.len(), if saved { "successfully" } else { "with a failure" }, got.len());
                for (i, (g, w)) in got.iter().zip(&want).enumerate() { ensure!(g == w, "changed", "example {} of {} ({}): saved {}, loaded {}", i, n, if saved { "saved successfully" } else { "save failed" }, brief(w), brief(g)); }
            }
        }
        Ok(())
    })?;
    if let Some(v) = o.v { return Err(v.into()); } exit_ok(&exit)?;
    cx.out.state(mix(n as u64 ^ (p.i("game") as u64) << 20 ^ hash_str(&format!("{:?}{:?}", p.sim.faults, p.sim.full_after))));
    if cx.out.sample.is_null() { cx.out.sample = json!({"game": G::name(), "examples": n, "saved": saved, "faults": format!("{:?}", p.sim.faults), "full_after": p.sim.full_after}); }
    Ok(())
}

// ---------------------------------------------------------------- C16
pub fn gen_train(r: &mut Rng, _p: &str, thorough: bool, i: usize) -> Plan {
    let mut p = newplan(); let kind = i % 3; // 0 small sets: any order; 1 one batch; 2 many batches
    let n = match kind { 0 => r.range(1, 5), 1 => r.range(1, 40), _ => r.range(7, if thorough { 150 } else { 60 }) };
    let b = match kind { 0 => r.range(1, 4), 1 => n + r.range(0, 5), _ => r.range(2, n) };
    let (n, b) = match i % 40 { 7 => { let n = r.range(257, 1500); (n, n + r.range(0, 5)) } 17 => { let n = r.range(600, 1500); (n, r.range(257, n)) } 27 => { let n = r.range(257, 700); (n, r.range(8, 40)) } _ => (n, b) };
    put(&mut p, &[("game", json!(*r.pick(&[0, 2, 2]))), ("n", json!(n)), ("batch", json!(b)), ("passes", json!(if kind == 0 { 1 } else { r.range(1, 3) })), ("seed_data", json!(r.next() >> 2)), ("seed_net", json!(r.next() >> 2)), ("lr", json!(*r.pick(&[0.0005, 0.001, 0.01, 0.03]))), ("wd", json!(*r.pick(&[0.0, 0.0001, 0.01, 0.3]))), ("loaded", json!(r.below(3) == 0))]);
    if i % 75 == 30 { put(&mut p, &[("orders", json!(120)), ("game", json!(2)), ("n", json!(4)), ("batch", json!(1)), ("passes", json!(1)), ("loaded", json!(false)), ("keep", json!(["orders", "n", "batch"]))]); }
    p
}
pub fn run_train(p: &Plan, cx: &mut Ctx) -> Res { by_shape!(p.i("game"), train_g(p, cx)) }
/// Trains a fresh copy of the starting network on the batches given and returns its weights, and for every
/// weight whether its gradient was always large enough for Adam's step to be determined.
pub type Weights = Vec<(String, Vec<f32>)>;
pub fn train_ref<G: LearnableGame>(seed_net: u64, lr: f64, wd: f64, data: &[MemoryFragment], batches: &[Vec<usize>]) -> (Weights, Vec<(String, Vec<bool>)>) { train_ref_from::<G>(net::<G>(seed_net, 1.0, 0.5), lr, wd, data, batches) }
/// The same from weights that differ in their last digits: how far rounding alone can lead.
pub fn train_ref_jitter<G: LearnableGame>(seed_net: u64, lr: f64, wd: f64, data: &[MemoryFragment], batches: &[Vec<usize>], jitter: u64) -> Weights {
    let net = net::<G>(seed_net, 1.0, 0.5); let mut r = Rng::new(jitter);
    tch::no_grad(|| for (_, mut t) in { let mut v: Vec<_> = net.vs.variables().into_iter().collect(); v.sort_by(|a, b| a.0.cmp(&b.0)); v } { let w: Vec<f32> = flat(&t).iter().map(|x| x * (1.0 + 2e-6 * (r.f() as f32 - 0.5))).collect(); let s = t.size(); t.copy_(&Tensor::from_slice(&w).view(s.as_slice())); });
    train_ref_from::<G>(net, lr, wd, data, batches).0
}
fn train_ref_from<G: LearnableGame>(net: die_e::alphazero::nnet::ResNet, lr: f64, wd: f64, data: &[MemoryFragment], batches: &[Vec<usize>]) -> (Weights, Vec<(String, Vec<bool>)>) {
    use tch::nn::OptimizerConfig;
    let mut opt = tch::nn::Adam::default().wd(wd).build(&net.vs, lr).unwrap(); let mut names: Vec<(String, Tensor)> = net.vs.variables().into_iter().collect(); for x in names.iter_mut() { x.0 = format!("{}{:?}", x.0, x.1.size()); } names.sort_by(|a, b| a.0.cmp(&b.0));
    let mut ok: Vec<(String, Vec<bool>)> = names.iter().map(|(n, t)| (n.clone(), vec![true; t.numel()])).collect();
    for b in batches {
        let xs = Tensor::concat(&b.iter().map(|&i| { let s = &data[i].state; if s.dim() == 3 { s.unsqueeze(0) } else { s.shallow_clone() } }).collect::<Vec<_>>(), 0); let ps = Tensor::stack(&b.iter().map(|&i| data[i].ps.shallow_clone()).collect::<Vec<_>>(), 0);
        let z = Tensor::from_slice(&b.iter().map(|&i| data[i].outcome as f32).collect::<Vec<_>>()).unsqueeze(1);
        let (lp, v) = net.forward_train(&xs, true);
        let ce = -(lp.log_softmax(1, tch::Kind::Float) * &ps).sum_dim_intlist(1, false, tch::Kind::Float).mean(tch::Kind::Float); let mse = (v - z).square().mean(tch::Kind::Float);
        opt.zero_grad(); (ce + mse).backward();
        for ((_, t), (_, o)) in names.iter().zip(ok.iter_mut()) { if t.requires_grad() { let g = t.grad(); if g.defined() { let w = flat(&t.detach()); for (k, x) in flat(&g).iter().enumerate() { if !((*x as f64 + wd * w[k] as f64).abs() > 2e-4) { o[k] = false; } } } } }
        opt.step();
    }
    (weights(&net.vs), ok)
}
pub fn agrees(a: &Weights, r: &(Weights, Vec<(String, Vec<bool>)>), lr: f64, steps: usize) -> (bool, usize, f64) { let (off, n, worst) = agrees_within(a, r, &[], lr, steps); (off == 0.0, n, worst) }
/// As `agrees`, but a weight may also differ by a few times what rounding alone does to it (`alt`: the same training from nearly the same weights).
pub fn agrees_within(a: &Weights, r: &(Weights, Vec<(String, Vec<bool>)>), alt: &[Weights], lr: f64, steps: usize) -> (f64, usize, f64) {
    let (mut off, mut n, mut worst) = (0usize, 0, 0.0f64);
    for (i, ((x, y), (_, ok))) in a.iter().zip(&r.0).zip(&r.1).enumerate() { let stat = x.0.contains("running"); for k in 0..x.1.len() { let d = (x.1[k] as f64 - y.1[k] as f64).abs(); let tol = if stat { 2e-3 * (y.1[k].abs() as f64 + 0.05) } else { 0.04 * lr * steps as f64 + 1e-6 + 1e-5 * y.1[k].abs() as f64 } + 6.0 * alt.iter().map(|w| (w[i].1[k] as f64 - y.1[k] as f64).abs()).fold(0.0, f64::max); if ok[k] { n += 1; worst = worst.max(d / tol); if d.is_nan() || d > tol { off += 1; } } } }
    if !(a.len() == r.0.len() && a.iter().zip(&r.0).all(|(x, y)| x.0 == y.0)) { return (1.0, n, worst); }
    (off as f64 / n.max(1) as f64, n, worst)
}
fn chunks(order: &[usize], b: usize) -> Vec<Vec<usize>> { order.chunks(b).map(|c| c.to_vec()).collect() }
pub fn perms(n: usize) -> Vec<Vec<usize>> { if n == 0 { return vec![vec![]]; } let mut r = vec![]; for p in perms(n - 1) { for i in 0..=p.len() { let mut q = p.clone(); q.insert(i, n - 1); r.push(q); } } r }
fn train_g<G: LearnableGame>(p: &Plan, cx: &mut Ctx) -> Res {
    let (n, b, passes, seed, sn, lr, wd) = (p.u("n").max(1), p.u("batch").max(1), p.u("passes").max(1), p.i("seed_data") as u64, p.i("seed_net") as u64, p.f("lr").max(1e-6), p.f("wd"));
    let cfg = Cfg { tbatch: b as i64, lr, wd, ..Default::default() }; let file = cx.root.join("start.ot"); let loaded = p.i("loaded") != 0;
    if loaded { let net = net::<G>(sn, 1.0, 0.5); net.vs.save(&file).map_err(|e| Bad::H(e.to_string()))?; }
    if p.i("orders") > 0 {
        // the same four examples, one per batch, in many passes that start alike: each order leads to its own weights
        let k = p.u("orders").max(120); let cfg = Cfg { tbatch: 1, ..cfg };
        return cx.phase(&p.sim.clone(), |ch, out| {
            record(ToyCfg::DEF, false, false);
            let r = ch.sim(|| (0..k).map(|_| { let mut az = cfg.az::<G>(None); fill(&az.model.vs, G::ACTION_SPACE_SIZE, sn, 1.0, 0.5); let mut mem = examples::<G>(seed, 4, true); az.train(&mut mem); weights(&az.model.vs).iter().fold(1, |h, x| mix(h ^ hash_f32s(&x.1))) }).collect::<Vec<u64>>());
            let ends: std::collections::BTreeSet<u64> = match r { Ok(x) => x, Err(m) => return viol("panic", m) }.into_iter().collect(); out.nontrivial = true; out.probe_n("orders of four examples seen", ends.len() as u64); out.sample = json!({"passes over the same four examples": k, "different results": ends.len()});
            ensure!(ends.len() >= 19, "not-random", "{} passes over the same four examples from the same weights lead to {} different weights; a random order of four leads to 24", k, ends.len()); Ok(())
        }).map(|_| ());
    }
    cx.phase(&p.sim.clone(), |ch, out| {
        record(ToyCfg::DEF, false, false); let orig = examples::<G>(seed, n, true); let keys: Vec<Flat> = orig.iter().map(flatten).collect(); let mut mem = examples::<G>(seed, n, true);
        let r = ch.sim(|| { let mut az = cfg.az::<G>(if loaded { Some(file.clone()) } else { None }); if !loaded { fill(&az.model.vs, G::ACTION_SPACE_SIZE, sn, 1.0, 0.5); } let mut orders = vec![]; for _ in 0..passes { az.train(&mut mem); orders.push(mem.iter().map(flatten).collect::<Vec<_>>()); } (weights(&az.model.vs), orders) });
        let (w, orders) = match r { Ok(x) => x, Err(m) => return viol("panic", m) };
        out.nontrivial = true;
        let mut sorted: Vec<&Flat> = keys.iter().collect(); sorted.sort(); for o in &orders { let mut s: Vec<&Flat> = o.iter().collect(); s.sort(); ensure!(s == sorted, "altered", "training altered the examples: {} before, {} after", keys.len(), o.len()); }
        let ident: Vec<usize> = (0..n).collect(); let order = |o: &Vec<Flat>| -> Vec<usize> { o.iter().map(|f| keys.iter().position(|k| k == f).unwrap()).collect() };
        let steps = passes * n.div_ceil(b); let what = format!("{} examples in batches of {}, {} passes, lr {}, wd {}{}", n, b, passes, lr, wd, if loaded { ", from a model file" } else { "" });
        let try_ = |os: &[Vec<usize>]| { let bs: Vec<Vec<usize>> = os.iter().flat_map(|o| chunks(o, b)).collect(); let r = train_ref::<G>(sn, lr, wd, &orig, &bs); let a = agrees(&w, &r, lr, steps); if a.0 || bs.len() < 2 { return (a.0, a.1, a.2, false); }
            // several steps amplify rounding: how much, shows training from nearly the same weights
            let alt: Vec<Weights> = (0..4).map(|j| { let mut bs = bs.clone(); if j & 1 == 1 { for x in bs.iter_mut() { x.reverse(); } } train_ref_jitter::<G>(sn, lr, wd, &orig, &bs, 77 + j) }).collect(); let a = agrees_within(&w, &r, &alt, lr, steps); if std::env::var("DSIM_VERBOSE").is_ok() { eprintln!("off {} of {} worst {}", a.0, a.1, a.2); } (a.0 < 0.02, a.1, a.2, true) };
        let kept: Vec<Vec<usize>> = orders.iter().map(order).collect(); let (ok, compared, worst, wide) = try_(&kept); if wide { out.probe("rounding spread used"); } out.probe_n("weights compared", compared as u64);
        out.sample = json!({"examples": n, "batch": b, "passes": passes, "lr": lr, "wd": wd, "weights compared": compared, "worst difference in tolerances": worst});
        out.state(mix(n as u64 * 1000 + b as u64) ^ hash_str(&format!("{:?}", kept)));
        // an order left in the examples that is neither the old one nor a random one (a random one keeps one place on average)
        if ok && n >= 30 { let mut prev = ident.clone(); for o in &kept { let same = o.iter().zip(&prev).filter(|(x, y)| x == y).count(); ensure!(same < 14 || same == n, "not-random", "{}: {} examples were used in a place of their own", what, same); prev = o.clone(); } }
        if b >= n { ensure!(ok, "wrong-step", "{}: the weights differ from the specified step by {:.1} tolerances", what, worst); out.probe("single batch"); return Ok(()); }
        if ok { out.probe("order known"); let still = kept.iter().filter(|o| **o == ident).count();
            // an order kept may hide the order used: then this one must be the only one that fits
            let ways: f64 = { let lf = |k: usize| (2..=k).map(|x| (x as f64).ln()).sum::<f64>(); lf(n) - (n / b) as f64 * lf(b) - lf(n % b) };
            if !wide && still == passes && ways > 14.0 && (0..3).all(|t| { let mut r = Rng::new(t + 5); let o: Vec<Vec<usize>> = (0..passes).map(|_| { let mut o = ident.clone(); for i in (1..n).rev() { o.swap(i, r.below(i as u64 + 1) as usize); } o }).collect(); !try_(&o).0 }) { return viol("not-shuffled", format!("{}: the examples were used in the order given", what)); }
            return Ok(()); }
        if n <= 5 && passes == 1 { for o in perms(n) { if try_(&[o]).0 { out.probe("order found by search"); return Ok(()); } } return viol("wrong-step", format!("{}: no order of the examples leads to these weights", what)); }
        // the order used is not visible; only a kept order can be judged
        ensure!(kept.iter().all(|o| *o == ident), "wrong-step", "{}: the weights differ from training in the order the examples were left in by {:.1} tolerances", what, worst); out.probe("order not visible");
        Ok(())
    })?;
    Ok(())
}
