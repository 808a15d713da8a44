//! C15, C20: whole learning runs: what they store and what they leave behind.
use crate::ensure;
use crate::fw::*;
use crate::games::*;
use crate::scen_data::{faults, flatten, put};
use crate::scen_model::*;
use crate::scen_search::toy_cfg;
use crate::scen_selfplay::played_of;
use crate::sim::{mix, Exit, SimCfg};
use crate::util::*;
use die_e::alphazero::alphazero::AlphaZero;
use serde_json::json;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};

fn h(e: impl ToString) -> Bad { Bad::H(e.to_string()) }
pub fn gen(r: &mut Rng, prop: &str, _t: bool, i: usize) -> Plan {
    let mut p = newplan(); crate::scen_search::gen_toy(r, &mut p, (1, 4));
    put(&mut p, &[("game", json!(if i % 8 == 5 { 0 } else { 2 })), ("toy_win", json!(1)), ("toy_k_win", json!(*r.pick(&[0, 100, 219, 220, 300, 400]))), ("toy_k_draw", json!(0)), ("toy_inf", json!(if prop == "C15" && i % 16 == 2 { 150 } else { 0 })), ("toy_pass", json!(if prop == "C15" { *r.pick(&[0, 200]) } else { 0 })), ("toy_len_min", json!(1)), ("toy_len_max", json!(r.range(1, 4))),
        ("learn", json!(if prop == "C15" && i % 16 == 2 { 1 } else { r.range(1, 3) })), ("sp", json!(r.range(1, 3))), ("n", json!(r.range(1, 5))), ("epochs", json!(r.range(0, 2))), ("tbatch", json!(r.range(1, 8))), ("iters", json!(r.range(1, 4))), ("limit", json!(r.range(4, 9))), ("lr", json!(*r.pick(&[0.001, 0.01]))), ("seed_net", json!(r.next() >> 2)),
        ("start", json!(if prop == "C15" && i % 16 == 2 { r.range(0, 1) } else { r.range(0, 2) })), ("runs", json!(1 + (prop == "C15" && i % 4 == 1) as i64)), ("single", json!((prop == "C20" && i % 6 == 4) as i64)), ("stale", json!((prop == "C20" && r.below(3) == 0) as i64))]);
    // numbers of two digits: many rounds, or many iterations
    if prop == "C15" && i % 16 == 6 { put(&mut p, &[("sp", json!(r.range(11, 13))), ("learn", json!(1)), ("n", json!(r.range(1, 2))), ("runs", json!(1)), ("toy_len_max", json!(2))]); }
    if (prop == "C15" || prop == "C20") && i % 32 == 10 { put(&mut p, &[("learn", json!(r.range(11, 12))), ("sp", json!(1)), ("n", json!(1)), ("iters", json!(1)), ("epochs", json!(1)), ("toy_len_max", json!(1)), ("runs", json!(1)), ("start", json!(r.range(1, 2))), ("toy_k_win", json!(*r.pick(&[0, 400])))]); }
    if prop == "C20" && i % 2 == 1 { match i % 8 { 7 => p.sim.full_after = Some(r.below(400_000)), 5 => p.sim.faults = faults(r, 'm', 60, &["enospc", "eio", "eacces", "kill", "tornkill"]), 3 if r.chance(250) => p.sim.faults = faults(r, 's', 6, &["eio", "eacces"]), _ => { put(&mut p, &[("aim", json!(r.range(0, 2))), ("aim_at", json!(r.below(1000)))]); let n = r.range(1, 3); p.sim.faults = (0..n).map(|_| crate::sim::Fault { cls: 'm', idx: 12 + r.below(60), kind: r.pick(&["enospc", "eio", "eacces", "short", "eintr"]).to_string(), arg: r.next() >> 40 }).collect() } } }
    p
}
pub fn run(p: &Plan, cx: &mut Ctx) -> Res { if p.i("game") == 0 { run_g::<WT>(p, cx) } else { run_g::<ToyD>(p, cx) } }
pub fn dirs_below(d: &Path) -> Vec<PathBuf> { let mut v = vec![]; if let Ok(rd) = std::fs::read_dir(d) { for e in rd.flatten() { if e.path().is_dir() { v.push(e.path()); v.extend(dirs_below(&e.path())); } } } v.sort(); v }
const WORDS: [&str; 11] = ["unable", "fail", "error", "couldn", "could not", "cannot", "can't", "not saved", "warn", "panic", "wasn't"];
pub fn reports_failure(s: &str) -> bool { let l = s.to_lowercase(); WORDS.iter().any(|w| l.contains(w)) }

fn run_g<G: Sg>(p: &Plan, cx: &mut Ctx) -> Res {
    let mut toy = toy_cfg(p); toy.all_legal = false; toy.games = 400; if p.is("C20") { toy.inf_pm = 0; toy.k_draw = 0; toy.win_kind = 1; } let (l, s, n, sn, start, single) = (p.u("learn").max(1), p.u("sp").max(1), p.u("n").max(1), p.i("seed_net") as u64, p.i("start"), p.i("single") != 0);
    let cfg = |learn: usize| Cfg { learn: learn as i64, sp: s as i64, nsp: n as i64, epochs: p.i("epochs"), tbatch: p.i("tbatch").max(1), iters: p.i("iters").max(1), limit: p.i("limit").max(1), lr: p.f("lr"), ..Default::default() };
    let prepare = |d: &Path| -> Result<(), Bad> { std::fs::create_dir_all(d).map_err(h)?; if start == 1 { net::<G>(sn, 1.0, 0.5).vs.save(d.join("given.ot")).map_err(h)?; } if start == 2 { let b = best_path::<G>(d); std::fs::create_dir_all(b.parent().unwrap()).map_err(h)?; net::<G>(sn ^ 9, 1.0, 0.5).vs.save(&b).map_err(h)?; }
        // checkpoints an earlier run left
        if p.i("stale") != 0 { let b = best_path::<G>(d); let m = b.parent().unwrap(); std::fs::create_dir_all(m).map_err(h)?; let old = net::<G>(sn ^ 77, 1.0, 0.5); for i in 0..=l { old.vs.save(m.join(format!("model_{}.ot", i))).map_err(h)?; } }
        Ok(()) };
    let root = cx.root.clone();
    // one learning run in its own directory; returns how it ended, the weights it ended with and what it printed
    let go = |cx: &mut Ctx, dir: &Path, learn: usize, sim: &SimCfg, log: bool| -> Result<(Exit, Out, String), Bad> {
        let c = cfg(learn); let dir = dir.to_path_buf(); let pl = p.clone();
        cx.phase_raw(sim, |ch, out| {
            std::env::set_current_dir(&dir).unwrap();
            let wfile = dir.with_extension("weights");
            let r = ch.sim(|| { record(toy, false, false); let mut az = c.az::<G>(if start == 1 { Some(PathBuf::from("given.ot")) } else { None }); record(toy, log, false); if single { az.learn::<G>() } else { az.learn_parallel::<G>() } az });
            out.nontrivial = true;
            match r { Ok(az) => { let _ = az.model.vs.save(&wfile); out.data = json!({"ok": true}); if log { check_store::<G>(&pl, &dir, learn, s, n, out)?; } } Err(m) => { out.data = json!({"ok": false, "panic": m.lines().next().unwrap_or("").chars().take(160).collect::<String>()}); } }
            Ok(())
        })
    };
    let quiet = SimCfg { faults: vec![], full_after: None, ..p.sim.clone() };
    if p.is("C15") {
        for k in 0..p.u("runs").max(1) {
            let d = root.join("w"); if k == 0 { prepare(&d)?; }
            let before: BTreeMap<PathBuf, Vec<u8>> = files_below(&d.join("data")).into_iter().map(|f| { let b = std::fs::read(&f).unwrap_or_default(); (f, b) }).collect();
            let (e, o, _) = go(cx, &d, l, &SimCfg { seed: mix(quiet.seed ^ k as u64), ..quiet.clone() }, true)?;
            if let Some(v) = o.v { return Err(v.into()); } exit_ok(&e)?;
            if o.data["ok"] != json!(true) { return viol("panic", format!("the run failed: {}", o.data["panic"])).map_err(Bad::V); }
            for (f, b) in &before { if std::fs::read(f).ok().as_ref() != Some(b) { return viol("other-run-touched", format!("the run changed {} of an earlier run", f.strip_prefix(&d).unwrap_or(f).display())).map_err(Bad::V); } }
            if k > 0 { cx.out.probe("second run beside the first"); }
        }
        cx.out.state(mix((l * 100 + s * 10 + n) as u64)); return Ok(());
    }
    // C20: the weights after each iteration, from runs of the same seed that end there
    let mut want: Vec<Ws> = vec![];
    for i in 1..=l {
        let d = root.join(format!("p{}", i)); prepare(&d)?; let (e, o, text) = go(cx, &d, i, &quiet, false)?; if let Some(v) = o.v { return Err(v.into()); } exit_ok(&e)?;
        if o.data["ok"] != json!(true) { return viol("panic", format!("a run of {} iterations failed without any fault: {}", i, o.data["panic"])).map_err(Bad::V); }
        want.push(file_weights::<G>(&d.with_extension("weights")).map_err(h)?);
        if reports_failure(&text) { cx.out.probe("failure words without faults"); }
        judge::<G>(p, &d, i, &want, None, &text, single, cx)?;
    }
    if p.sim.faults.is_empty() && p.sim.full_after.is_none() { cx.out.sample = json!({"iterations": l, "checkpoints": want.len(), "won by the current model": toy.k_win, "started": start}); return Ok(()); }
    // faults aimed at the files that matter: at an operation on the best model or a checkpoint, as numbered in the run without faults
    let mut fsim = p.sim.clone();
    if p.i("aim") > 0 { let key = ["", "best_model", "models/"][p.u("aim").min(2)]; let at: Vec<u64> = cx.shm.oplog().iter().filter(|x| x.contains(key)).filter_map(|x| x.split(' ').next()?.parse().ok()).collect(); for (k, f) in fsim.faults.iter_mut().enumerate() { if !at.is_empty() { f.idx = at[(p.u("aim_at") + k * 7) % at.len()]; } } }
    let d = root.join("f"); prepare(&d)?; let (e, o, text) = go(cx, &d, l, &fsim, false)?;
    let ended = e == Exit::Ok && o.data["ok"] == json!(true); let reported = !ended || reports_failure(&text);
    if matches!(e, Exit::StepCap | Exit::Deadlock | Exit::CpuCap | Exit::Wall) { exit_ok(&e)?; }
    cx.out.probe(if !ended { "run stopped by a fault" } else if reported { "failure reported" } else { "no failure reported" });
    cx.out.sample = json!({"iterations": l, "faults": format!("{:?} full_after {:?}", p.sim.faults, p.sim.full_after), "ended": ended, "reported a failure": reported}); cx.out.state(hash_str(&format!("{:?}{:?}{:?}", e, o.data, p.sim.faults)));
    judge::<G>(p, &d, l, &want, Some((ended, reported)), &text, single, cx)
}
/// Compares what a run left with the weights it had: everything if it reported no failure, and whatever it reported as saved.
fn judge<G: Sg>(p: &Plan, d: &Path, l: usize, want: &[Ws], fault: Option<(bool, bool)>, text: &str, single: bool, cx: &mut Ctx) -> Res {
    let dir = d.join("models").join(G::name()); let best = dir.join("best_model.ot"); let f = |e: &Result<Ws, String>| match e { Ok(w) => match want.iter().position(|x| same_weights(x, w)) { Some(k) => format!("the weights of iteration {}", k), None => "other weights".into() }, Err(m) => m.clone() };
    let silent = fault.map_or(true, |(ended, reported)| ended && !reported);
    for i in 0..l {
        let w = file_weights::<G>(&dir.join(format!("model_{}.ot", i)));
        let claimed = text.lines().any(|x| { let y = x.to_lowercase(); !reports_failure(&y) && !y.contains("not ") && (y.contains("success") || y.contains("saved")) && (y.contains(&format!("model_{}.ot", i)) || y.contains(&format!("iteration {} ", i))) });
        if !same(&w, &want[i]) {
            if silent { return viol("checkpoint", format!("a run of {} iterations {}ended without a failure report, but the checkpoint of iteration {} holds {}", l, if fault.is_some() { "under faults " } else { "" }, i, f(&w))).map_err(Bad::V); }
            // a failure reported earlier may have changed the course of the run, so its weights may be others, but they must be there
            let early = text.lines().take_while(|x| !x.to_lowercase().contains(&format!("model_{}.ot", i))).any(reports_failure);
            let bad = if !early { true } else if i + 1 == l && fault.map_or(false, |f| f.0) { let end = file_weights::<G>(&d.with_extension("weights")); end.is_ok() && !same(&w, end.as_ref().unwrap()) } else { w.is_err() };
            if claimed && bad { return viol("false-report", format!("the checkpoint of iteration {} was reported as saved, but holds {}", i, f(&w))).map_err(Bad::V); }
        } else { cx.out.probe("checkpoint right"); }
    }
    if single || !silent || G::name() != "toy" { return Ok(()); }
    let old = if p.i("start") == 2 { Some(weights(&net::<G>(p.i("seed_net") as u64 ^ 9, 1.0, 0.5).vs)) } else { None }; let mut b: Option<&Ws> = old.as_ref();
    for w in want.iter().take(l) { if b.is_none() || p.i("toy_k_win") >= 220 { b = Some(w); } }
    let w = file_weights::<G>(&best);
    if !same(&w, b.unwrap()) { return viol("best-model", format!("a run of {} iterations ({} of 400 games of each match won by the current model, {}) ended without a failure report; its best model should hold {}, but holds {}", l, p.i("toy_k_win"), if old.is_some() { "a best model was stored before" } else { "no best model was stored before" }, f(&Ok(b.unwrap().clone())), f(&w))).map_err(Bad::V); }
    cx.out.probe("best model right"); Ok(())
}
pub fn files_below(d: &Path) -> Vec<PathBuf> { let mut v = vec![]; if let Ok(rd) = std::fs::read_dir(d) { for e in rd.flatten() { let f = e.path(); if f.is_dir() { v.extend(files_below(&f)); } else { v.push(f); } } } v.sort(); v }

/// The examples stored under each iteration and round against the games played in it.
fn check_store<G: Sg>(p: &Plan, dir: &Path, l: usize, s: usize, n: usize, out: &mut Out) -> Result<(), Viol> {
    let limit = p.u("limit").max(1);
    // self-play games in the order they were started; match games carry an id
    let mut roots = vec![]; for (root, last) in last_of_roots() { let path = path_to(last); if path.iter().any(|e| e.kind == Kind::SetId) || !path.iter().any(|e| matches!(e.kind, Kind::Apply | Kind::Skip)) { continue; } roots.push((root, last)); }
    ensure!(roots.len() == l * s * n, "games", "{} self-play games were played, {} iterations of {} rounds of {} games are configured", roots.len(), l, s, n);
    let data = dir.join("data").join(G::name()); let mut runs: Vec<PathBuf> = std::fs::read_dir(&data).map(|r| r.flatten().map(|e| e.path()).collect()).unwrap_or_default(); runs.sort();
    let mut found = vec![]; let mut seen_all = 0usize; let mut run_dir: Option<PathBuf> = None;
    let want: Vec<Vec<Vec<(u64, i8, u32)>>> = { let mut v = vec![]; let mut it = roots.iter(); for _ in 0..l { let mut row = vec![]; for _ in 0..s { let mut ex = vec![]; for _ in 0..n { let g = played_of::<G>(it.next().unwrap().1, limit)?; for (st, code) in &g.moves { let o = match g.over { Some(x) => result_for(x, st.get_player()) as i8, None => 0 }; ex.push((hash_f32s(&flat(&st.as_tensor())), o, *code)); } } row.push(ex); } v.push(row); } v };
    // the run's own directory is the one that holds the first round
    for r in &runs { let f = r.join("lrn-0").join("sp-0"); if f.is_dir() { found.push(r.clone()); } }
    let total: usize = want.iter().flatten().map(|x| x.len()).sum();
    let matches_run = |r: &PathBuf| -> Result<usize, Viol> {
        let mut k = 0;
        for i in 0..l { for j in 0..s {
            let d = r.join(format!("lrn-{}", i)).join(format!("sp-{}", j)); let w = &want[i][j];
            ensure!(d.is_dir(), "not-stored", "no directory {} of {} iterations with {} rounds", d.strip_prefix(&data).unwrap_or(&d).display(), l, s);
            let got = std::panic::catch_unwind(|| AlphaZero::load_training_data(&d)).map_err(|_| Viol { class: "unreadable".into(), msg: format!("the examples of iteration {} round {} can't be loaded", i, j) })?;
            let mut a: Vec<(u64, i8)> = w.iter().map(|x| (x.0, x.1)).collect(); let mut b: Vec<(u64, i8)> = got.iter().map(|m| (hash_f32s(&flat(&m.state)), m.outcome)).collect(); a.sort(); b.sort();
            ensure!(a == b, "wrong-examples", "iteration {} round {} made {} examples, {} are stored under it, {} of them made in it (run of {} iterations of {} rounds of {} games)", i, j, a.len(), b.len(), b.iter().filter(|x| a.contains(x)).count(), l, s, n);
            for m in &got { let ps = flat(&m.ps); let st = hash_f32s(&flat(&m.state)); ensure!(w.iter().any(|x| x.0 == st && x.1 == m.outcome && ps[x.2 as usize] > 0.0), "wrong-policy", "an example of iteration {} round {} gives the move made no weight", i, j); let _ = flatten; }
            k += got.len();
        } }
        Ok(k)
    };
    let mut first_err = None;
    for r in &found { match matches_run(r) { Ok(k) => { seen_all = k; run_dir = Some(r.clone()); break; } Err(v) => { if first_err.is_none() || found.len() == 1 { first_err = Some(v); } } } }
    let run_dir = match run_dir { Some(r) => r, None => { let mut v = first_err.unwrap_or(Viol { class: "not-stored".into(), msg: format!("no run directory with data for {} iterations of {} rounds", l, s) }); if found.len() > 1 { v.msg = format!("(none of {} runs) {}", found.len(), v.msg); } return Err(v); } };
    // nothing else is stored below the run
    let extra: Vec<PathBuf> = dirs_below(&run_dir).into_iter().filter(|d| std::fs::read_dir(d).map(|r| r.flatten().any(|e| e.path().is_file())).unwrap_or(false)).filter(|d| !(0..l).any(|i| (0..s).any(|j| *d == run_dir.join(format!("lrn-{}", i)).join(format!("sp-{}", j))))).collect();
    ensure!(extra.is_empty(), "stored-elsewhere", "data is stored elsewhere too: {:?}", extra.iter().map(|d| d.strip_prefix(&data).unwrap_or(d)).collect::<Vec<_>>());
    ensure!(seen_all == total, "example-count", "{} examples made, {} stored", total, seen_all);
    out.probe_n("examples stored", total as u64); out.probe_n("rounds", (l * s) as u64); out.state(mix((l * 7919 + s * 31 + n) as u64) ^ mix(total as u64));
    if out.sample.is_null() { out.sample = json!({"iterations": l, "rounds": s, "games per round": n, "examples": want.iter().map(|r| r.iter().map(|x| x.len()).collect::<Vec<_>>()).collect::<Vec<_>>()}); }
    Ok(())
}
