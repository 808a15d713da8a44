//! C17, C18, C19: model files; the best model and who may replace it; crashes and faults while replacing.
use crate::ensure;
use crate::fw::*;
use crate::games::*;
use crate::scen_data::{by_shape, faults, put, READ_KINDS, SAVE_KINDS, STAT_KINDS};
use crate::scen_search::toy_cfg;
use crate::sim::{mix, Exit, SimCfg};
use crate::util::*;
use die_e::alphazero::nnet::ResNet;
use die_e::base::LearnableGame;
use serde_json::json;
use std::path::{Path, PathBuf};
use tch::{nn::VarStore, Device};

pub type Ws = Vec<(String, Vec<f32>)>;
/// The weights in a model file, read by the harness itself; Err if it doesn't hold a complete model of the game.
pub fn file_weights<G: LearnableGame>(f: &Path) -> Result<Ws, String> {
    if !f.exists() { return Err("no file".into()); }
    let mut n = ResNet::new::<G>(VarStore::new(Device::Cpu)); n.vs.load(f).map_err(|e| e.to_string().lines().next().unwrap_or("").chars().take(200).collect::<String>())?; Ok(weights(&n.vs))
}
pub fn best_path<G: LearnableGame>(root: &Path) -> PathBuf { root.join("models").join(G::name()).join("best_model.ot") }
fn h(e: impl ToString) -> Bad { Bad::H(e.to_string()) }
pub fn same(a: &Result<Ws, String>, b: &Ws) -> bool { a.as_ref().map(|a| same_weights(a, b)).unwrap_or(false) }
pub fn clean(p: &Plan, salt: u64) -> SimCfg { SimCfg { faults: vec![], full_after: None, ..p.sim.quiet(salt) } }

// ---------------------------------------------------------------- C17
const EXTS: [&str; 4] = ["start.ot", "start", "a.b.model", "start.safetensors"];
pub fn gen_model(r: &mut Rng, _p: &str, _t: bool, i: usize) -> Plan {
    let mut p = newplan();
    // how: 0 ResNet::from_path, 1 run with a model file, 2 run with a stored best model, 3 both are there, 4 neither
    let how = [1, 2, 0, 3, 1, 2, 4, 0][i % 8];
    // damage: 0 none, 1 missing, 2 empty, 3 truncated, 4 another game's, 5 garbage, 6 a directory, 7 read faults, 8 only part of the variables, 9 a file of training data, 10 one variable of another shape, 11 the file's metadata can't be read
    let damage = if how == 4 { if r.chance(300) { 11 } else { 0 } } else if r.chance(550) { if how == 2 && r.chance(300) { 11 } else { r.range(1, 11) } } else { 0 };
    put(&mut p, &[("game", json!(r.range(0, 2))), ("how", json!(how)), ("damage", json!(damage)), ("ext", json!(if how == 2 { 0 } else { r.range(0, 3) })), ("cut", json!(r.below(1 << 20))), ("seed_net", json!(r.next() >> 2)), ("seed_other", json!(r.next() >> 2)), ("by", json!(r.range(0, 1))), ("extreme", json!(r.range(0, 2)))]);
    if damage == 7 { p.sim.faults = faults(r, 'r', 28, &READ_KINDS); } if damage == 11 { p.sim.faults = faults(r, 's', 4, &STAT_KINDS); }
    p
}
pub fn run_model(p: &Plan, cx: &mut Ctx) -> Res { by_shape!(p.i("game"), model_g(p, cx)) }
fn model_g<G: Sg>(p: &Plan, cx: &mut Ctx) -> Res {
    let (how, damage, sn, so) = (p.i("how"), p.i("damage"), p.i("seed_net") as u64, p.i("seed_other") as u64);
    // the label follows the faults, whatever the minimiser left of either
    let has = |c: char| p.sim.faults.iter().any(|f| f.cls == c); let damage = if has('s') { 11 } else if has('r') { 7 } else if damage == 7 || damage >= 11 { 0 } else { damage };
    let best = best_path::<G>(&cx.root); std::fs::create_dir_all(best.parent().unwrap()).map_err(h)?;
    let file = if how == 2 { best.clone() } else { cx.root.join(EXTS[p.u("ext") % 4]) };
    let extreme = p.i("extreme");
    let mk = move || { let n = net::<G>(sn, 1.5, 0.5); if extreme == 1 { tch::no_grad(|| for (k, (_, mut t)) in { let mut v: Vec<_> = n.vs.variables().into_iter().collect(); v.sort_by(|a, b| a.0.cmp(&b.0)); v }.into_iter().enumerate() { let f = t.view([-1]); let mut x = f.get(0); let _ = x.fill_([1e-41, -0.0, 3.0e38, 1.0000001][k % 4]); let _ = t.requires_grad(); t.copy_(&f.view(t.size().as_slice())); }); } n };
    // written by one process (the code's own way of saving, or libtorch's) ...
    if how != 4 {
        let f = file.clone(); let by = p.i("by");
        cx.phase(&clean(p, 1), |ch, out| {
            let r = ch.sim(|| { let n = mk(); if by == 0 { n.vs.save(&f).map_err(|e| e.to_string()) } else { let mut az = Cfg::default().az::<G>(None); az.model = n; az.save_current_model(&f).map_err(|e| e.to_string()) } });
            match r { Ok(Ok(())) => {} Ok(Err(e)) | Err(e) => return viol("save-fails", format!("saving a model to {} fails: {}", f.display(), e)) }
            out.probe(if by == 0 { "saved by libtorch" } else { "saved by the run" }); Ok(())
        })?;
        if how == 3 { net::<G>(so, 1.0, 0.5).vs.save(&best).map_err(h)?; }
    }
    let bytes = if how == 4 { vec![] } else { std::fs::read(&file).map_err(h)? };
    match damage {
        1 => std::fs::remove_file(&file).map_err(h)?, 2 => std::fs::write(&file, b"").map_err(h)?,
        3 => std::fs::write(&file, &bytes[..(p.u("cut") % bytes.len().max(1)).min(bytes.len() - 1)]).map_err(h)?,
        4 => { if G::name() == "toy" { net::<WT>(so, 1.0, 0.5).vs.save(&file) } else { net::<ToyD>(so, 1.0, 0.5).vs.save(&file) }.map_err(h)? }
        5 => { let mut r = Rng::new(so); let b: Vec<u8> = (0..1 + p.u("cut") % 5000).map(|_| r.next() as u8).collect(); std::fs::write(&file, b).map_err(h)? }
        6 => { std::fs::remove_file(&file).map_err(h)?; std::fs::create_dir(&file).map_err(h)? }
        8 | 10 => { let n = mk(); let mut v: Vec<_> = n.vs.variables().into_iter().collect(); v.sort_by(|a, b| a.0.cmp(&b.0)); let k = p.u("cut") % v.len(); if damage == 8 { v.remove(k); } else { let s = v[k].1.size(); v[k].1 = tch::Tensor::zeros([s[0] + 2, 3].as_slice(), (tch::Kind::Float, Device::Cpu)); } if file.extension().map(|e| e == "safetensors").unwrap_or(false) { tch::Tensor::write_safetensors(&v, &file) } else { tch::Tensor::save_multi(&v, &file) }.map_err(h)? }
        9 => tch::Tensor::zeros([5, 9].as_slice(), (tch::Kind::Float, Device::Cpu)).save(&file).map_err(h)?,
        _ => {}
    }
    // ... and used by a later one
    let what = format!("{} from {} ({})", if how == 0 { "a player's model" } else { "a run" }, match how { 2 => "the stored best model", 3 => "a model file although a best model is stored", 4 => "nothing", _ => "a model file" }, ["intact", "missing", "empty", "truncated", "of another game", "garbage", "a directory", "read faults", "without one variable", "training data", "with a variable of another shape", "metadata unreadable"][damage as usize % 12]);
    let cfg = SimCfg { seed: mix(p.sim.seed ^ 77), ..p.sim.clone() };
    let (exit, o, _) = cx.phase_raw(&cfg, |ch, out| {
        record(ToyCfg::DEF, false, false);
        let r = ch.sim(|| { let n = if how == 0 { ResNet::from_path::<G>(&file) } else { Cfg::default().az::<G>(if how == 1 || how == 3 { Some(file.clone()) } else { None }).model }; let w = weights(&n.vs); let xs: Vec<G> = { let mut r = Rng::new(sn ^ 5); (0..4).map(|i| crate::scen_search::position::<G>(&mut r, i, i as usize)).collect() }; let e = evals(&n, &xs); (w, xs, e) });
        out.nontrivial = true; out.state(mix(hash_str(&what) ^ p.i("ext") as u64)); out.sample = json!({"case": what, "file": file.file_name().map(|f| f.to_string_lossy().into_owned()), "refused": r.is_err()});
        match r {
            Err(m) => { out.probe("refused"); ensure!(damage != 0, "refused", "{}: {}", what, m); }
            Ok((w, xs, e)) => {
                if how == 4 { out.probe("started from scratch"); return Ok(()); }
                ensure!(damage == 0 || damage == 7 || damage == 11 || (damage == 1 && how == 2), "accepted", "{}: no error", what); out.probe("loaded");
                if damage == 1 { return Ok(()); } // without a best model a run starts from scratch
                let n = mk(); let want = weights(&n.vs);
                if !same_weights(&w, &want) { let d: Vec<&str> = w.iter().zip(&want).filter(|(a, b)| a.1.iter().zip(&b.1).any(|(x, y)| x.to_bits() != y.to_bits())).map(|x| x.0 .0.as_str()).collect(); return viol("other-weights", format!("{}: {} of {} variables differ from the file: {:?}", what, d.len(), want.len(), &d[..d.len().min(6)])); }
                let e2 = evals(&n, &xs); let bits = |v: &Vec<(Vec<f32>, f32)>| -> Vec<u32> { v.iter().flat_map(|x| x.0.iter().chain(std::iter::once(&x.1)).map(|f| f.to_bits())).collect() };
                ensure!(bits(&e) == bits(&e2), "other-evaluations", "{}: the loaded network evaluates positions differently", what);
            }
        }
        Ok(())
    })?;
    if let Some(v) = o.v { return Err(v.into()); }
    if !(damage != 0 && matches!(exit, Exit::Code(_) | Exit::Signal(_))) { exit_ok(&exit)?; }
    Ok(())
}

// ---------------------------------------------------------------- C18, C19
/// Nets that prefer even or odd codes, so that the log of a match shows which model made a move.
pub fn parity_net(odd: bool, seed: u64) -> ResNet { let l: Vec<f32> = (0..TOY_A).map(|c| (if (c % 2 == 1) == odd { 9.0 } else { 0.0 }) + 0.1 * ((mix(seed ^ c as u64) % 10) as f32)).collect(); net_const::<ToyD>(&l, 0.0) }
pub fn gen_best(r: &mut Rng, prop: &str, _t: bool, i: usize) -> Plan {
    let mut p = newplan(); crate::scen_search::gen_toy(r, &mut p, (1, 4));
    let k = *r.pick(&[0, 100, 179, 180, 199, 200, 201, 210, 218, 219, 220, 221, 222, 240, 300, 400]); let d = if r.chance(500) { 0 } else { r.range(0, 400 - k) };
    let k = if prop == "C19" { r.range(220, 400) } else { k };
    put(&mut p, &[("toy_win", json!(1)), ("toy_k_win", json!(k)), ("toy_k_draw", json!(if prop == "C19" { 0 } else { d })), ("toy_inf", json!(if prop == "C18" && i % 16 == 5 { 30 } else { 0 })), ("toy_pass", json!(*r.pick(&[0, 0, 200]))), ("toy_games", json!(400)), ("toy_all", json!(1)), ("toy_len_min", json!(1)), ("toy_len_max", json!(r.range(1, 3))),
        ("seed_net", json!(r.next() >> 2)), ("stored", json!(if i % 8 == 3 { 0 } else { 1 })), ("iters", json!(r.range(1, 3))), ("random_nets", json!((i % 3 == 1) as i64)), ("temperature", json!(*r.pick(&[0.5, 1.0, 1.25])))]);
    p.p.insert("keep".into(), json!(["toy_branch", "toy_all", "iters", "toy_len_max", "toy_len_min"]));
    if prop == "C18" && i % 16 == 9 { p.sim.faults = faults(r, 's', 4, &STAT_KINDS); }
    if prop == "C19" {
        p.p.insert("target".into(), json!(r.range(0, 5)));
        if r.chance(300) { p.p.insert("target".into(), json!(*r.pick(&[3, 5, 5]))); p.p.insert("aim".into(), json!(r.range(1, 5))); }
        match i % 6 { 5 => p.sim.power_end = true, 4 => p.sim.full_after = Some(r.below(80_000)), _ => { let n = if p.i("target") == 5 { *r.pick(&[9, 60, 160]) } else { 9 }; p.sim.faults = faults(r, 'm', n, &SAVE_KINDS) } }
    }
    p
}
pub fn run_best(p: &Plan, cx: &mut Ctx) -> Res {
    let toy = toy_cfg(p); let (sn, stored) = (p.i("seed_net") as u64, p.i("stored") != 0); let rnd = p.i("random_nets") != 0; type G = ToyD;
    let mk = move |cur: bool| if rnd { net::<G>(sn ^ cur as u64, 1.0, 0.5) } else { parity_net(!cur, sn) };
    let best = best_path::<G>(&cx.root); std::fs::create_dir_all(best.parent().unwrap()).map_err(h)?;
    if stored { mk(false).vs.save(&best).map_err(h)?; }
    let old_bytes = std::fs::read(&best).ok(); let faulty = !p.sim.faults.is_empty();
    let cfg = Cfg { iters: p.i("iters").max(1), eps: 0.0, limit: 400, temperature: p.f("temperature").max(0.2), ..Default::default() };
    let (exit, o, _) = cx.phase_raw(&p.sim.clone(), |ch, out| {
        let r = ch.sim(|| { record(toy, false, false); let mut az = { let c = cfg.conf(); drop(c); cfg.az::<G>(None) }; az.model = mk(true); let before = weights(&az.model.vs); record(toy, true, false); az.play_vs_best_model::<G>(); (before, weights(&az.model.vs)) });
        match r { Ok((a, b)) => ensure!(same_weights(&a, &b), "current-altered", "the match altered the current model"), Err(m) if faulty => { out.data = json!({"refused": m.chars().take(120).collect::<String>()}); return Ok(()); } Err(m) => return viol("panic", m) }
        // the games as they were played, and which side the current model had
        let w = world(); let mut seen = std::collections::BTreeMap::new();
        let (mut wins, mut draws, mut n) = ([0u32; 2], 0, 0); let mut par = [[0u32; 2]; 2];
        for g in crate::scen_match::real_games::<G>() { n += 1; let rounds = g.path.len(); let l = *g.path.last().unwrap_or(&g.first); seen.insert(w.log[g.first as usize].root, ());
            for e in g.path.iter().map(|e| &w.log[*e as usize]) { if e.kind == Kind::Apply { par[(e.player > 0) as usize][(e.code % 2) as usize] += 1; } }
            match G::from_snap(&w.log[l as usize].snap).check_winner() { Some(-1) if rounds <= 400 => wins[0] += 1, Some(1) if rounds <= 400 => wins[1] += 1, _ => draws += 1 } }
        // (the model that plays even codes is the current one; without a clear majority either way it is player 1, as in the code)
        let (a, b) = (par[0][0] + par[1][1], par[0][1] + par[1][0]); let side = if rnd || a + b < 200 || b < 2 * a { 0 } else { 1 };
        out.data = json!({"games": n, "wins": wins[side], "other": wins[1 - side], "draws": draws}); out.nontrivial = true; Ok(())
    })?;
    if let Some(v) = o.v { return Err(v.into()); } if exit != Exit::Ok && !(faulty && matches!(exit, Exit::Code(_) | Exit::Signal(_))) { exit_ok(&exit)?; }
    let fired = !cx.stats_faultless();
    let (games, wins) = (o.data["games"].as_u64().unwrap_or(0), o.data["wins"].as_u64().unwrap_or(0));
    let now = std::fs::read(&best).ok(); let fw = file_weights::<G>(&best); let cur = weights(&mk(true).vs);
    let what = format!("{} of {} games won by the current model, {} lost, {} drawn or cut", wins, games, o.data["other"], o.data["draws"]);
    cx.out.state(mix(wins * 1000 + o.data["draws"].as_u64().unwrap_or(0))); cx.out.sample = json!({"match": what, "best model stored before": stored, "replaced": same(&fw, &cur)});
    if !stored { cx.out.probe("no best model before"); if fired && now.is_none() { return Ok(()); } if !same(&fw, &cur) { return viol("not-adopted", format!("no best model existed, the current model should be it: {:?}", fw.err())).map_err(Bad::V); } return Ok(()); }
    if fired && games == 0 { cx.out.probe("not played: the stored model can't be looked at"); if now != old_bytes { return viol("replaced", format!("the metadata of the best model couldn't be read and no match was played, but the best model {}", if same(&fw, &cur) { "was replaced by the current one" } else { "changed" })).map_err(Bad::V); } return Ok(()); }
    if games == 0 { return Err(Bad::H("no match games in the log".into())); }
    if wins * 100 >= 55 * games { cx.out.probe("won 55%"); if !same(&fw, &cur) { return viol("not-replaced", format!("{}: the best model should now be the current one ({})", what, match &fw { Ok(_) => "it is another".to_string(), Err(e) => e.clone() })).map_err(Bad::V); } }
    else { cx.out.probe("below 55%"); if now != old_bytes { return viol("replaced", format!("{}: the best model should be untouched, it {}", what, if same(&fw, &cur) { "was replaced by the current one" } else { "changed" })).map_err(Bad::V); } }
    Ok(())
}

// C19: a process dies, or a write fails, while a model file that exists is replaced
pub fn run_replace(p: &Plan, cx: &mut Ctx) -> Res {
    let toy = toy_cfg(p); let sn = p.i("seed_net") as u64; let stored = p.i("stored") != 0; type G = ToyD;
    let mk = move |cur: bool| net::<G>(sn ^ cur as u64, 1.0, 0.5);
    let dir = best_path::<G>(&cx.root).parent().unwrap().to_path_buf(); std::fs::create_dir_all(&dir).map_err(h)?;
    // 0, 1, 2: the best model after a won match; 3: save_current_model; 4: the checkpoint of a learning run; 5: safetensors
    let target = p.i("target"); let file = match target { 3 => cx.root.join("mine.ot"), 4 => dir.join("model_0.ot"), 5 => cx.root.join("mine.safetensors"), _ => dir.join("best_model.ot") };
    if stored { mk(false).vs.save(&file).map_err(h)?; }
    let cfg = Cfg { iters: 1, eps: 0.0, limit: if target == 4 { 6 } else { 400 }, learn: 1, sp: 0, epochs: 0, ..Default::default() };
    let go = |cx: &mut Ctx, sim: &SimCfg| cx.phase_raw(sim, |ch, out| {
        let r = ch.sim(|| { record(toy, false, false); let start = Cfg::default(); let mut az = { let c = start.conf(); drop(c); cfg.az::<G>(None) }; az.model = mk(true); match target { 3 | 5 => az.save_current_model(&file).map_err(|e| e.to_string()), 4 => { az.learn_parallel::<G>(); Ok(()) } _ => { az.play_vs_best_model::<G>(); Ok(()) } } });
        out.data = json!(match r { Ok(Ok(())) => None, Ok(Err(e)) => Some(e), Err(e) => Some(e) }); out.nontrivial = true; Ok(())
    });
    // faults aimed at the last operations of the save, as numbered in a save without faults
    let mut fsim = p.sim.clone();
    if p.i("aim") > 0 && (target == 3 || target == 5) && !fsim.faults.is_empty() {
        go(cx, &clean(p, 4))?; let at: Vec<u64> = cx.shm.oplog().iter().filter_map(|x| x.split(' ').next()?.parse().ok()).collect();
        if stored { mk(false).vs.save(&file).map_err(h)?; } else { let _ = std::fs::remove_file(&file); }
        for f in fsim.faults.iter_mut() { f.idx = at[at.len().saturating_sub(p.u("aim")).min(at.len().max(1) - 1)..].first().copied().unwrap_or(0); } cx.out.probe("aimed at the end of a save");
    }
    let (exit, o, stdout) = go(cx, &fsim)?;
    if let Some(v) = o.v { return Err(v.into()); }
    let died = matches!(exit, Exit::Crash | Exit::Code(_) | Exit::Signal(_)) && !cx.stats_faultless(); // a write error may end the process
    if exit != Exit::Ok && !died { exit_ok(&exit)?; }
    let _ = stdout; let faulty = died || !cx.stats_faultless();
    cx.out.probe(if died { "died while saving" } else if faulty { "a write failed" } else { "nothing failed" });
    // a later process starts from the file
    let f2 = file.clone(); let named = target >= 3;
    let o = cx.phase_raw(&clean(p, 3), |ch, out| {
        let there = f2.exists();
        let r = ch.sim(|| { let az = Cfg::default().az::<G>(if named && there { Some(f2.clone()) } else { None }); weights(&az.model.vs) });
        let (old, new) = (weights(&mk(false).vs), weights(&mk(true).vs)); let what = format!("{} ({}, {})", f2.file_name().unwrap().to_string_lossy(), if stored { "existing before" } else { "new" }, if died { "the process died while writing it" } else if p.sim.power_end { "power was lost after writing it" } else { "a write failed" });
        out.sample = json!({"file": what, "faults": format!("{:?} full_after {:?}", p.sim.faults, p.sim.full_after), "holds": match &r { Err(_) => "unreadable", Ok(w) => if same_weights(w, &old) { "old" } else if same_weights(w, &new) { "new" } else { "other" } }});
        match r {
            Err(m) => return viol("destroyed", format!("{} can't be loaded: {}", what, m.lines().next().unwrap_or(""))),
            Ok(w) => {
                if stored { ensure!(there, "destroyed", "{} is gone", what); ensure!(same_weights(&w, &old) || same_weights(&w, &new), "mixed", "{} holds neither the previous nor the new model", what); out.probe(if same_weights(&w, &new) { "holds the new model" } else { "holds the previous model" }); }
                else if there { ensure!(same_weights(&w, &new), "partial", "{} holds something else than the model saved", what); }
            }
        }
        Ok(())
    })?;
    if let Some(v) = o.1.v { return Err(v.into()); } exit_ok(&o.0)?;
    cx.out.state(hash_str(&format!("{}{}{:?}{:?}", target, stored, p.sim.faults, p.sim.full_after))); Ok(())
}
