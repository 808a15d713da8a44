//! Plans, runs, workers, minimisation, replay files, evidence.
use crate::sim::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{BufRead, BufReader, Write};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(s: u64) -> Rng { Rng(mix(s)) }
    pub fn next(&mut self) -> u64 { self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15); mix(self.0) }
    pub fn below(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { self.next() % n } }
    pub fn range(&mut self, a: i64, b: i64) -> i64 { a + self.below((b - a + 1).max(1) as u64) as i64 }
    pub fn chance(&mut self, pm: u64) -> bool { self.below(1000) < pm }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len() as u64) as usize] }
    pub fn f(&mut self) -> f64 { (self.next() >> 11) as f64 / (1u64 << 53) as f64 }
    pub fn shuffle<T>(&mut self, v: &mut [T]) { for i in (1..v.len()).rev() { v.swap(i, self.below(i as u64 + 1) as usize) } }
}
pub fn hash_str(s: &str) -> u64 { let mut h = 0xcbf29ce484222325u64; for b in s.bytes() { h = (h ^ b as u64).wrapping_mul(0x100000001b3); } mix(h) }
pub fn hash_f32s(v: &[f32]) -> u64 { let mut h = 7u64; for x in v { h = mix(h ^ x.to_bits() as u64) } h }

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Viol { pub class: String, pub msg: String }
pub fn viol<T>(class: &str, msg: impl Into<String>) -> Result<T, Viol> { let m: String = msg.into(); Err(Viol { class: class.to_string(), msg: if m.len() > 3000 { m.chars().take(3000).collect() } else { m } }) }
#[macro_export]
macro_rules! ensure { ($c:expr, $class:expr, $($a:tt)*) => { if !($c) { return $crate::fw::viol($class, format!($($a)*)); } } }
#[derive(Debug)]
pub enum Bad { V(Viol), H(String) }
impl From<Viol> for Bad { fn from(v: Viol) -> Bad { Bad::V(v) } }
pub type Res = Result<(), Bad>;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Plan { pub prop: String, pub scen: String, pub p: Map<String, Value>, pub sim: SimCfg }
impl Plan {
    pub fn i(&self, k: &str) -> i64 { self.p.get(k).and_then(|v| v.as_i64()).unwrap_or(0) }
    pub fn u(&self, k: &str) -> usize { self.i(k).max(0) as usize }
    pub fn f(&self, k: &str) -> f64 { self.p.get(k).and_then(|v| v.as_f64()).unwrap_or(0.0) }
    pub fn s(&self, k: &str) -> String { self.p.get(k).and_then(|v| v.as_str()).unwrap_or("").to_string() }
    pub fn list(&self, k: &str) -> Vec<Value> { self.p.get(k).and_then(|v| v.as_array()).cloned().unwrap_or_default() }
    pub fn ints(&self, k: &str) -> Vec<i64> { self.list(k).iter().filter_map(|v| v.as_i64()).collect() }
    pub fn is(&self, prop: &str) -> bool { self.prop == prop }
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Out { pub v: Option<Viol>, pub probes: BTreeMap<String, u64>, pub states: Vec<u64>, pub nontrivial: bool, pub sample: Value, pub data: Value }
impl Out {
    pub fn probe(&mut self, k: &str) { self.probe_n(k, 1) }
    pub fn probe_n(&mut self, k: &str, n: u64) { if n > 0 { *self.probes.entry(k.to_string()).or_default() += n; } }
    pub fn state(&mut self, h: u64) { if self.states.len() < 4000 { self.states.push(h) } }
}

pub struct Ctx<'a> {
    pub root: PathBuf, pub shm: &'a Shm, pub stats: Stats, pub out: Out, pub zyg: &'a mut Option<Zygote>,
    pub tier_thorough: bool, pub last_oplog: Vec<String>, pub devs: Option<Vec<(u32, u32)>>, pub digest: u64,
}
impl<'a> Ctx<'a> {
    /// No injected fault has fired in this run so far.
    pub fn stats_faultless(&self) -> bool { !self.stats.c.iter().any(|(k, v)| k.starts_with("fault.") && *v > 0) }
    fn absorb(&mut self) { self.last_oplog = self.shm.oplog(); }
    /// Forked phase whose exit is judged by the caller.
    pub fn phase_raw<F: FnOnce(&mut Child, &mut Out) -> Result<(), Viol>>(&mut self, cfg: &SimCfg, f: F) -> Result<(Exit, Out, String), Bad> {
        let po = phase(&self.root, self.shm, cfg, &mut self.stats, |c| {
            let mut o = Out::default();
            if let Err(v) = f(c, &mut o) { o.v = Some(v); }
            serde_json::to_value(&o).unwrap()
        });
        self.absorb();
        if cfg.sched_mode == 1 && self.devs.is_none() { self.devs = self.shm.devs(); }
        self.digest = mix(self.digest ^ self.shm.get().loghash ^ hash_str(&po.out.to_string().replace(self.root.to_str().unwrap(), "ROOT")) ^ hash_str(&format!("{:?}", po.exit)));
        if let Some(m) = po.out.get("__harness_panic") { return Err(Bad::H(format!("harness panic: {}", m))); }
        if po.exit == Exit::Code(95) { return Err(Bad::H("simulator internal limit".into())); }
        let o: Out = serde_json::from_value(po.out).unwrap_or_default();
        for (k, v) in &o.probes { self.out.probe_n(k, *v); }
        for s in &o.states { self.out.state(*s); }
        self.out.nontrivial |= o.nontrivial;
        if self.out.sample.is_null() && !o.sample.is_null() { self.out.sample = o.sample.clone(); }
        Ok((po.exit, o, po.stdout))
    }
    /// Forked phase that must end normally; a violation found by its checks is returned.
    pub fn phase<F: FnOnce(&mut Child, &mut Out) -> Result<(), Viol>>(&mut self, cfg: &SimCfg, f: F) -> Result<Out, Bad> {
        let (e, o, _) = self.phase_raw(cfg, f)?;
        exit_ok(&e)?;
        if let Some(v) = o.v { return Err(Bad::V(v)); }
        Ok(o)
    }
    pub fn cli(&mut self, cfg: &SimCfg, stdin: &str, args: &[&str]) -> CliOut {
        if self.zyg.is_none() {
            let dir = std::env::current_exe().unwrap(); let bin = dir.parent().unwrap().join("die-e");
            *self.zyg = Some(Zygote::start(&bin, &std::env::var("DSIM_PRELOAD").unwrap()));
        }
        let a: Vec<String> = args.iter().map(|s| s.to_string()).collect();
        let r = self.zyg.as_mut().unwrap().run(&self.root, self.shm, cfg, &mut self.stats, stdin, &a);
        self.absorb();
        if cfg.sched_mode == 1 && self.devs.is_none() { self.devs = self.shm.devs(); }
        self.digest = mix(self.digest ^ self.shm.get().loghash ^ hash_str(&format!("{:?}", r.exit)));
        self.out.probe(&format!("cli {} {}", args.iter().find(|a| ["learn", "play", "train", "replay"].contains(*a)).unwrap_or(&"?"), match r.exit { Exit::Ok => "ok", Exit::Crash => "crash", _ => "error" }));
        r
    }
}
pub fn exit_ok(e: &Exit) -> Result<(), Viol> {
    match e {
        Exit::Ok => Ok(()),
        Exit::StepCap | Exit::CpuCap | Exit::Wall => viol("does-not-finish", format!("the code never finished ({:?})", e)),
        Exit::Deadlock => viol("deadlock", "every thread is blocked for ever"),
        e => viol("abnormal-end", format!("the code ended with {:?}", e)),
    }
}

pub struct Scen { pub name: &'static str, pub gen: fn(&mut Rng, &str, bool, usize) -> Plan, pub run: fn(&Plan, &mut Ctx) -> Res }
pub struct Prop { pub id: &'static str, pub scens: Vec<(&'static str, usize, usize)>, pub rule: &'static str, pub real: &'static str, pub stub: &'static str, pub level: &'static str }

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Rec { pub idx: usize, pub v: Option<Viol>, pub err: Option<String>, pub stats: Stats, pub out: Out, pub digest: u64, pub plan: Option<Plan>, pub devs: Option<Vec<(u32, u32)>>, pub oplog: Vec<String>, pub ms: u64 }

fn scratch() -> PathBuf { let base = if Path::new("/dev/shm").is_dir() { "/dev/shm" } else { "/tmp" }; PathBuf::from(format!("{}/diesim.{}", base, std::process::id())) }
fn run_plan(scens: &[Scen], plan: &Plan, dir: &Path, n: usize, shm: &Shm, zyg: &mut Option<Zygote>, thorough: bool) -> Rec {
    let root = dir.join(format!("r{}", n)); let _ = std::fs::remove_dir_all(&root); std::fs::create_dir_all(&root).unwrap();
    let t = Instant::now();
    let mut ctx = Ctx { root: root.clone(), shm, stats: Stats::default(), out: Out::default(), zyg, tier_thorough: thorough, last_oplog: vec![], devs: None, digest: 1 };
    let sc = scens.iter().find(|s| s.name == plan.scen).expect("scenario");
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (sc.run)(plan, &mut ctx)));
    let mut rec = Rec { digest: ctx.digest, stats: ctx.stats, out: ctx.out, devs: ctx.devs, oplog: ctx.last_oplog, ms: t.elapsed().as_millis() as u64, ..Default::default() };
    match r { Ok(Ok(())) => {} Ok(Err(Bad::V(v))) => { rec.v = Some(v); rec.plan = Some(plan.clone()); } Ok(Err(Bad::H(m))) => { rec.err = Some(m); rec.plan = Some(plan.clone()); } Err(e) => { rec.err = Some(format!("driver panic: {}", panic_msg(&e))); rec.plan = Some(plan.clone()); } }
    rec.digest = mix(rec.digest ^ hash_str(&format!("{:?}", rec.v)));
    if rec.v.is_none() { rec.oplog.clear(); rec.devs = None; }
    if std::env::var_os("DSIM_KEEP").is_none() { let _ = std::fs::remove_dir_all(&root); for e in ["out", "cout", "cerr", "cin"] { let _ = std::fs::remove_file(root.with_extension(e)); } }
    rec
}
pub fn plan_for(scens: &[Scen], prop: &Prop, seed: u64, thorough: bool, idx: usize) -> Plan {
    // round-robin over the scenarios in proportion to their counts
    let counts: Vec<usize> = prop.scens.iter().map(|s| if thorough { s.2 } else { s.1 }).collect();
    let (k, i) = locate(&counts, idx);
    let sc = scens.iter().find(|s| s.name == prop.scens[k].0).unwrap_or_else(|| panic!("no scenario {}", prop.scens[k].0));
    let mut rng = Rng::new(seed.wrapping_mul(1_000_003) ^ hash_str(prop.id) ^ hash_str(sc.name) ^ mix(i as u64));
    let s = rng.next() >> 1;
    let mut p = (sc.gen)(&mut rng, prop.id, thorough, i);
    p.prop = prop.id.into(); p.scen = sc.name.into(); if p.sim.seed <= 1 { p.sim.seed = s; }
    p
}
fn locate(counts: &[usize], idx: usize) -> (usize, usize) {
    // interleave: the j-th run overall goes to the scenario with the smallest completed fraction
    let total: usize = counts.iter().sum(); let mut done = vec![0usize; counts.len()];
    let mut order = Vec::with_capacity(total.min(idx + 1));
    for _ in 0..=idx.min(total.saturating_sub(1)) {
        let k = (0..counts.len()).filter(|&k| done[k] < counts[k]).min_by(|&a, &b| (done[a] * counts[b]).cmp(&(done[b] * counts[a]))).unwrap();
        order.push((k, done[k])); done[k] += 1;
    }
    *order.last().unwrap()
}

pub fn worker(scens: Vec<Scen>, props: Vec<Prop>) -> ! {
    check_layout();
    std::panic::set_hook(Box::new(|i| { if std::env::var_os("DSIM_STDERR").is_some() { eprintln!("{}", i); } }));
    crate::warm();
    let dir = scratch(); std::fs::create_dir_all(&dir).unwrap();
    let shm = Shm::new(&dir.join("shm"));
    let mut zyg = None; let mut n = 0usize;
    let stdin = std::io::stdin(); let mut line = String::new();
    loop {
        line.clear(); if stdin.lock().read_line(&mut line).unwrap_or(0) == 0 { break; }
        let q: Value = serde_json::from_str(&line).expect("request");
        let thorough = q["thorough"].as_bool().unwrap_or(false);
        let (idx, plan) = if let Some(p) = q.get("plan") { (0, serde_json::from_value(p.clone()).unwrap()) } else {
            let prop = props.iter().find(|p| p.id == q["prop"].as_str().unwrap()).unwrap(); let idx = q["idx"].as_u64().unwrap() as usize;
            (idx, plan_for(&scens, prop, q["seed"].as_u64().unwrap(), thorough, idx)) };
        let mut rec = run_plan(&scens, &plan, &dir, n, &shm, &mut zyg, thorough); n += 1; rec.idx = idx;
        let mut o = std::io::stdout().lock(); serde_json::to_writer(&mut o, &rec).unwrap(); o.write_all(b"\n").unwrap(); o.flush().unwrap();
    }
    drop(zyg); let _ = std::fs::remove_dir_all(&dir);
    std::process::exit(0)
}

pub struct Worker { child: std::process::Child, rd: BufReader<std::process::ChildStdout>, dir: PathBuf }
impl Worker {
    pub fn start() -> Worker {
        let me = std::env::current_exe().unwrap();
        let pre = std::env::var("DSIM_PRELOAD").unwrap_or_else(|_| me.parent().unwrap().join("libdiesim.so").to_str().unwrap().to_string());
        let mut child = std::process::Command::new(&me).arg("worker").env("LD_PRELOAD", &pre).env("DSIM_PRELOAD", &pre).env("OMP_NUM_THREADS", "1").env("MKL_NUM_THREADS", "1").env("MALLOC_ARENA_MAX", "2").env_remove("RAYON_NUM_THREADS").env_remove("RUST_BACKTRACE")
            .stdin(std::process::Stdio::piped()).stdout(std::process::Stdio::piped()).spawn().expect("worker");
        let rd = BufReader::new(child.stdout.take().unwrap()); let dir = PathBuf::from(format!("{}/diesim.{}", if Path::new("/dev/shm").is_dir() { "/dev/shm" } else { "/tmp" }, child.id()));
        Worker { child, rd, dir }
    }
    pub fn ask(&mut self, q: &Value) -> Result<Rec, String> {
        let s = format!("{}\n", q); let i = self.child.stdin.as_mut().unwrap();
        i.write_all(s.as_bytes()).and_then(|_| i.flush()).map_err(|e| format!("worker gone: {}", e))?;
        let mut l = String::new(); let n = self.rd.read_line(&mut l).map_err(|e| e.to_string())?;
        if n == 0 { return Err(format!("worker died on {}", s.trim())); }
        serde_json::from_str(&l).map_err(|e| format!("bad record: {}", e))
    }
    pub fn plan(&mut self, p: &Plan) -> Result<Rec, String> { self.ask(&json!({"plan": p})) }
}
impl Drop for Worker { fn drop(&mut self) { drop(self.child.stdin.take()); let t = Instant::now(); while t.elapsed() < Duration::from_secs(3) { if let Ok(Some(_)) = self.child.try_wait() { break; } std::thread::sleep(Duration::from_millis(5)); } let _ = self.child.kill(); let _ = self.child.wait(); let _ = std::fs::remove_dir_all(&self.dir); } }

fn same(r: &Result<Rec, String>, class: &str) -> Option<Rec> { match r { Ok(r) if r.v.as_ref().map(|v| v.class == class).unwrap_or(false) => Some(r.clone()), _ => None } }

/// Shrinks the plan while the same class of violation persists.
fn minimise(first: &Rec, budget: Duration) -> (Rec, usize) {
    let class = first.v.as_ref().unwrap().class.clone(); let mut best = first.clone(); let t = Instant::now(); let mut tries = 0;
    let mut w = Worker::start();
    macro_rules! attempt { ($p:expr) => {{ let p: Plan = $p; if t.elapsed() < budget && Some(&p) != best.plan.as_ref() { tries += 1; let r = w.plan(&p); if r.is_err() { w = Worker::start(); } if let Some(mut r) = same(&r, &class) { r.plan = Some(p); best = r; true } else { false } } else { false } }}; }
    macro_rules! cur { () => { best.plan.clone().unwrap() }; }
    // schedule and fault noise
    for k in ["spurious", "jump", "eintr", "sched", "full", "preempt"] {
        let mut p = cur!(); match k { "spurious" => p.sim.spurious_pm = 0, "jump" => p.sim.jump_pm = 0, "eintr" => p.sim.ent_eintr_pm = 0, "sched" => { p.sim.sched_mode = 0; p.sim.preempt_pm = 0; p.sim.switches.clear() } "full" => p.sim.full_after = None, _ => p.sim.preempt_pm = 0 }
        attempt!(p);
    }
    if cur!().sim.sched_mode == 1 { if let Some(d) = best.devs.clone() { let mut p = cur!(); p.sim.sched_mode = 2; p.sim.preempt_pm = 0; p.sim.switches = d; attempt!(p); } }
    let mut progress = true; let mut rounds = 0;
    while progress && t.elapsed() < budget && rounds < 4 {
        progress = false; rounds += 1;
        // switches and faults: drop chunks
        let mut n = (cur!().sim.switches.len() / 2).max(1);
        while !cur!().sim.switches.is_empty() && t.elapsed() < budget { let mut i = 0; while i < cur!().sim.switches.len() && t.elapsed() < budget { let mut p = cur!(); let e = (i + n).min(p.sim.switches.len()); p.sim.switches.drain(i..e); if attempt!(p) { progress = true } else { i += n } } if n == 1 { break; } n /= 2; }
        let mut i = 0; while i < cur!().sim.faults.len() { let mut p = cur!(); p.sim.faults.remove(i); if attempt!(p) { progress = true } else { i += 1 } }
        let keys: Vec<String> = cur!().p.keys().cloned().collect();
        for k in keys {
            // what kind of run this is stays as it is, and so does what the scenario asks to keep because its oracle relies on it
            if KEPT.contains(&k.as_str()) || cur!().p.get("keep").and_then(|v| v.as_array()).map_or(false, |a| a.iter().any(|x| x.as_str() == Some(k.as_str()))) { continue; }
            match cur!().p[&k].clone() {
                Value::Array(a) => {
                    let mut n = (a.len() / 2).max(1);
                    loop { let mut i = 0; loop { let cur = cur!().p[&k].as_array().cloned().unwrap(); if i >= cur.len() || t.elapsed() > budget { break; } let mut v = cur; let e = (i + n).min(v.len()); v.drain(i..e); let mut p = cur!(); p.p.insert(k.clone(), Value::Array(v)); if attempt!(p) { progress = true } else { i += n } } if n == 1 { break; } n /= 2; }
                }
                Value::Number(x) if x.is_i64() || x.is_u64() => {
                    let v = x.as_i64().unwrap_or(0); if k.starts_with("seed") || v <= 0 { continue; }
                    for c in [0, 1, 2, v / 4, v / 2, v - 1] { if c < cur!().i(&k) && c >= 0 { let mut p = cur!(); p.p.insert(k.clone(), json!(c)); if attempt!(p) { progress = true; break; } } }
                }
                _ => {}
            }
        }
    }
    (best, tries)
}

const KEPT: [&str; 13] = ["keep", "game", "kind", "one", "two", "odd", "by", "ext", "sel", "how", "target", "toy_win", "toy_games"];
fn known_findings(verif: &Path) -> Vec<(String, String, String)> {
    std::fs::read_to_string(verif.join("known_findings.txt")).unwrap_or_default().lines().filter_map(|l| {
        let l = l.trim(); if !l.starts_with("finding:") { return None; }
        let mut it = l["finding:".len()..].trim().splitn(3, ' ');
        let p = it.next()?.strip_prefix("property=")?.to_string(); let c = it.next()?.strip_prefix("class=")?.to_string(); Some((p, c, it.next().unwrap_or("").to_string()))
    }).collect()
}

pub fn check(scens: &[Scen], props: &[Prop], id: &str, thorough: bool, seed: u64, verif: &Path) -> i32 {
    let prop = match props.iter().find(|p| p.id == id) { Some(p) => p, None => { eprintln!("no such property {}", id); return 2; } };
    println!("die-sim: property={} tier={} VERIF_SEED={}", id, if thorough { "thorough" } else { "quick" }, seed);
    let t0 = Instant::now();
    let total: usize = prop.scens.iter().map(|s| if thorough { s.2 } else { s.1 }).sum();
    let cap = Duration::from_secs(std::env::var("DSIM_WALL").ok().and_then(|v| v.parse().ok()).unwrap_or(if thorough { 3 * 3600 } else { 300 }));
    let nw = std::env::var("DSIM_WORKERS").ok().and_then(|v| v.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4)).max(1).min(total.max(1));
    let known: Vec<_> = known_findings(verif).into_iter().filter(|k| k.0 == id).collect();
    let next = AtomicUsize::new(0); let stop = AtomicBool::new(false); let recs: Mutex<Vec<Rec>> = Mutex::new(vec![]); let errs: Mutex<Vec<String>> = Mutex::new(vec![]);
    std::thread::scope(|s| { for _ in 0..nw { s.spawn(|| {
        let mut w = Worker::start();
        loop {
            if stop.load(Ordering::SeqCst) || t0.elapsed() > cap { break; }
            let i = next.fetch_add(1, Ordering::SeqCst); if i >= total { break; }
            let q = json!({"prop": id, "idx": i, "seed": seed, "thorough": thorough});
            let mut r = w.ask(&q); if r.is_err() { w = Worker::start(); r = w.ask(&q); if r.is_err() { w = Worker::start(); } }
            match r {
                Ok(r) => { if let Some(e) = &r.err { errs.lock().unwrap().push(format!("run {}: {} plan {}", i, e, serde_json::to_string(&r.plan).unwrap())); }
                    if let Some(v) = &r.v { if !known.iter().any(|k| k.1 == v.class) { stop.store(true, Ordering::SeqCst); } } recs.lock().unwrap().push(r); }
                Err(e) => errs.lock().unwrap().push(format!("run {}: {}", i, e)),
            }
        }
    }); } });
    let mut recs = recs.into_inner().unwrap(); recs.sort_by_key(|r| r.idx); let errs = errs.into_inner().unwrap();
    let search_s = t0.elapsed().as_secs_f64();
    // evidence
    let mut st = Stats::default(); let mut probes: BTreeMap<String, u64> = BTreeMap::new(); let mut states = BTreeSet::new(); let mut digests = BTreeSet::new(); let mut scheds = BTreeSet::new(); let mut logs = BTreeSet::new();
    for r in &recs {
        for (k, v) in &r.stats.c { st.add(k, *v); } st.sim_ns += r.stats.sim_ns;
        for (k, v) in &r.out.probes { *probes.entry(k.clone()).or_default() += v; }
        states.extend(r.out.states.iter().cloned()); scheds.extend(r.stats.sched.iter().cloned()); logs.extend(r.stats.log.iter().cloned());
        if r.out.nontrivial && r.v.is_none() && r.err.is_none() { digests.insert(r.digest); }
    }
    let faults: BTreeMap<_, _> = st.c.iter().filter(|(k, _)| k.starts_with("fault.")).map(|(k, v)| (k[6..].to_string(), *v)).collect();
    let counters: BTreeMap<_, _> = st.c.iter().filter(|(k, _)| !k.starts_with("fault.")).map(|(k, v)| (k.clone(), *v)).collect();
    let samples: Vec<Value> = recs.iter().filter(|r| !r.out.sample.is_null()).take(3).map(|r| json!({"run": r.idx, "plan": plan_for(scens, prop, seed, thorough, r.idx), "observed": r.out.sample})).collect();
    let unlisted: Vec<&Rec> = recs.iter().filter(|r| r.v.as_ref().map(|v| !known.iter().any(|k| k.1 == v.class)).unwrap_or(false)).collect();
    let ev = json!({"property": id, "tier": if thorough { "thorough" } else { "quick" }, "seed": seed, "level": prop.level, "wall_s": 0.0, "violations": unlisted.len(),
        "coverage": {"evaluations": recs.len(), "distinct_nontrivial": digests.len(), "rule": prop.rule, "samples": if samples.is_empty() { vec![json!("no run completed")] } else { samples },
            "planned_runs": total, "runs_per_hour": (recs.len() as f64 / search_s.max(0.001) * 3600.0).round(), "simulated_time_s": st.sim_ns as f64 / 1e9, "faults_injected": faults, "simulator_counters": counters,
            "distinct_interleavings": scheds.len(), "distinct_event_logs": logs.len(), "distinct_states": states.len(), "probes": probes, "scenarios": prop.scens.iter().map(|s| s.0).collect::<Vec<_>>(),
            "real_components": prop.real, "stubbed_components": prop.stub, "workers": nw},
        "assumptions": ["A clean batch of sampled runs is evidence, not proof.", "Simulated disk: data not fsynced may be lost on power loss, a rename is atomic; libc and libtorch behave as linked here (CPU)."]});
    let mut ev = ev;
    let mut code = 0;
    for k in &known { if recs.iter().any(|r| r.v.as_ref().map(|v| v.class == k.1).unwrap_or(false)) { println!("KNOWN-FINDING: property={} {} ({})", id, k.1, k.2); } }
    if let Some(first) = unlisted.first() {
        let v = first.v.clone().unwrap(); println!("violation found in run {} [{}]: {}", first.idx, v.class, v.msg.lines().next().unwrap_or(""));
        let (mut best, tries) = minimise(first, Duration::from_secs(if std::env::var_os("DSIM_NOMIN").is_some() { 0 } else { 60 }));
        let confirm = |p: &Plan| -> Option<Rec> { for _ in 0..2 { let mut w = Worker::start(); if let Some(r) = same(&w.plan(p), &v.class) { return Some(r); } } None };
        let ok = match confirm(best.plan.as_ref().unwrap()) { Some(r) => { let p = best.plan.clone(); best = r; best.plan = p; true } None => { best = (*first).clone(); confirm(first.plan.as_ref().unwrap()).is_some() } };
        if !ok { eprintln!("HARNESS ERROR: the violation does not reproduce: {:?} {}", v, serde_json::to_string(&first.plan).unwrap()); code = 2; }
        else {
            let rd = std::env::var("DSIM_REPLAY_DIR").map(PathBuf::from).unwrap_or_else(|_| verif.join("evidence/replays")); let _ = std::fs::create_dir_all(&rd);
            let path = rd.join(format!("{}-{:08x}.json", id, hash_str(&serde_json::to_string(&best.plan).unwrap()) as u32));
            let bv = best.v.clone().unwrap();
            let rp = json!({"property": id, "class": bv.class, "message": bv.msg, "verif_seed": seed, "original_run": first.idx, "original_plan": first.plan, "minimiser_tries": tries, "plan": best.plan, "operations_of_last_phase": best.oplog, "observed": best.out.sample});
            std::fs::write(&path, serde_json::to_string_pretty(&rp).unwrap()).unwrap();
            println!("minimised ({} tries): {}", tries, bv.msg); println!("VIOLATION property={} replay={}", id, path.display()); code = 1;
        }
    } else if !errs.is_empty() { code = 2; }
    for e in errs.iter().take(5) { eprintln!("HARNESS ERROR: {}", e); }
    ev["wall_s"] = json!(t0.elapsed().as_secs_f64());
    let evp = verif.join("evidence").join(format!("{}.json", id)); let _ = std::fs::create_dir_all(evp.parent().unwrap());
    std::fs::write(&evp, serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    println!("{} runs in {:.1} s ({} distinct non-trivial), {} violations, {} harness errors, exit {}", recs.len(), search_s, digests.len(), unlisted.len(), errs.len(), code);
    if std::env::var_os("DSIM_VERBOSE").is_some() { println!("probes {:?}\ncounters {:?}\nfaults {:?}", ev["coverage"]["probes"], ev["coverage"]["simulator_counters"], ev["coverage"]["faults_injected"]); let mut m: Vec<_> = recs.iter().map(|r| (r.ms, r.idx)).collect(); m.sort(); m.reverse(); println!("slowest {:?}", &m[..m.len().min(5)]); }
    code
}

pub fn replay(file: &str) -> i32 {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(file).expect("replay file")).unwrap();
    let plan: Plan = serde_json::from_value(v["plan"].clone()).unwrap();
    match Worker::start().plan(&plan) {
        Ok(r) => match (r.v, r.err) {
            (Some(w), _) => { println!("reproduced [{}] {}\n{}", w.class, w.msg, r.oplog.join("\n")); println!("VIOLATION property={} replay={}", plan.prop, file); if v["class"] == json!(w.class) { 1 } else { println!("(class differs from the recorded one: {})", v["class"]); 1 } }
            (None, Some(e)) => { eprintln!("HARNESS ERROR: {}", e); 2 }
            (None, None) => { println!("the plan runs without a violation (digest {:x})", r.digest); 0 }
        },
        Err(e) => { eprintln!("HARNESS ERROR: {}", e); 2 }
    }
}

/// Runs the same runs in two fresh workers in different orders and compares the digests of their event logs.
pub fn determinism(props: &[Prop], ids: &[String], n: usize, seed: u64) -> i32 {
    let mut bad = 0;
    for p in props.iter().filter(|p| ids.is_empty() || ids.iter().any(|i| i == p.id)) {
        let total: usize = p.scens.iter().map(|s| s.1).sum(); let n = n.min(total);
        let res: Vec<Mutex<Vec<Option<(u64, Vec<u64>)>>>> = (0..2).map(|_| Mutex::new(vec![None; n])).collect();
        std::thread::scope(|s| { for pass in 0..2 { let workers = if pass == 0 { 3 } else { 5 }; for k in 0..workers { let res = &res; s.spawn(move || { let mut w = Worker::start();
            let mut idxs: Vec<usize> = (0..n).filter(|i| i % workers == k).collect(); if pass == 1 { idxs.reverse(); }
            for i in idxs { if let Ok(r) = w.ask(&json!({"prop": p.id, "idx": i, "seed": seed, "thorough": false})) { res[pass].lock().unwrap()[i] = Some((r.digest, r.stats.log.clone())); } else { w = Worker::start(); } } }); } } });
        let (a, b) = (res[0].lock().unwrap(), res[1].lock().unwrap());
        let diff: Vec<usize> = (0..n).filter(|&i| a[i].is_none() || a[i] != b[i]).collect();
        println!("{}: {} runs twice, {} differ {:?}", p.id, n, diff.len(), &diff[..diff.len().min(10)]); bad += diff.len();
    }
    if bad > 0 { 2 } else { 0 }
}
