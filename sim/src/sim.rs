//! Interface to libdiesim.so: simulator configuration, simulated sections, forked phases, CLI runs.
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::ffi::CString;
use std::io::{Read, Write};
use std::path::{Path, PathBuf};

pub const MAXDEV: usize = 8192;
pub const OPLOG: usize = 65536;
pub const FAULT_KINDS: [&str; 9] = ["enospc", "eio", "eintr", "short", "kill", "power", "tornkill", "tornpower", "eacces"];

#[repr(C)]
pub struct Shared {
    pub magic: u64, pub steps: u64, pub switches: u64, pub preempts: u64, pub ent_calls: u64, pub clock_calls: u64,
    pub sim_ns: u64, pub mut_ops: u64, pub read_ops: u64, pub threads: u64, pub futex_waits: u64, pub futex_wakes: u64,
    pub futex_timeouts: u64, pub spurious: u64, pub clock_jumps: u64, pub full_hits: u64, pub bytes_written: u64,
    pub lost_unsynced: u64, pub dirs_shuffled: u64, pub ent_eintr: u64, pub leaks: u64,
    pub fault_fired: [u64; 16], pub read_fault_fired: [u64; 16],
    pub stat_ops: u64, pub stat_fault_fired: [u64; 16],
    pub loghash: u64, pub schedhash: u64,
    pub exit_reason: u32, pub ndev: u32, pub oplen: u32, pub dev_overflow: u32,
    pub dev_step: [u32; MAXDEV], pub dev_tid: [u32; MAXDEV],
    pub oplog: [u8; OPLOG], pub leakmsg: [u8; 256],
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Fault { pub cls: char, pub idx: u64, pub kind: String, pub arg: u64 }

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
#[serde(default)]
pub struct SimCfg {
    pub seed: u64, pub sched_mode: u8, pub preempt_pm: u64, pub switches: Vec<(u32, u32)>, pub spurious_pm: u64,
    pub jump_pm: u64, pub ent_eintr_pm: u64, pub tick_max: u64, pub max_steps: u64, pub full_after: Option<u64>,
    pub ncpu: u64, pub faults: Vec<Fault>, pub cpu_s: u64,
    /// power is lost right after the simulated section
    #[serde(skip_serializing_if = "std::ops::Not::not")]
    pub power_end: bool,
    /// file operations are scheduling points
    #[serde(skip_serializing_if = "std::ops::Not::not")]
    pub fs_sched: bool,
}
impl Default for SimCfg {
    fn default() -> Self {
        SimCfg { seed: 1, sched_mode: 0, preempt_pm: 0, switches: vec![], spurious_pm: 0, jump_pm: 0, ent_eintr_pm: 0,
            tick_max: 2000, max_steps: 30_000_000, full_after: None, ncpu: 4, faults: vec![], cpu_s: 60, power_end: false, fs_sched: false }
    }
}
pub fn mix(mut z: u64) -> u64 { z = z.wrapping_add(0x9e3779b97f4a7c15); z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9); z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb); z ^ (z >> 31) }
impl SimCfg {
    pub fn quiet(&self, salt: u64) -> SimCfg { SimCfg { seed: mix(self.seed ^ (salt << 32)), ncpu: self.ncpu, ..Default::default() } }
    pub fn text(&self, root: &Path) -> String {
        let s = |k: u64| mix(self.seed.wrapping_mul(31).wrapping_add(k));
        let mut t = format!("root {}\nent_seed {}\nsched_seed {}\nclock_seed {}\ncrash_seed {}\ndir_seed {}\nsched_mode {}\npreempt_pm {}\nspurious_pm {}\njump_pm {}\nent_eintr_pm {}\ntick_max {}\nmax_steps {}\nncpu {}\n",
            root.display(), s(1), s(2), s(3), s(4), s(5), self.sched_mode, self.preempt_pm, self.spurious_pm, self.jump_pm, self.ent_eintr_pm, self.tick_max.max(1), self.max_steps, self.ncpu);
        if let Some(f) = self.full_after { t += &format!("full_after {}\n", f); }
        if self.fs_sched { t += "fs_sched 1\n"; }
        if self.power_end { t += "power_end 1\n"; }
        for f in &self.faults { t += &format!("fault {} {} {} {}\n", f.cls, f.idx, f.kind, f.arg); }
        for (a, b) in &self.switches { t += &format!("switch {} {}\n", a, b); }
        t
    }
}

fn sym(name: &str) -> *mut libc::c_void { let c = CString::new(name).unwrap(); unsafe { libc::dlsym(libc::RTLD_DEFAULT, c.as_ptr()) } }
pub fn preloaded() -> bool { !sym("dsim_enable").is_null() }
fn dsim_enable(cfg: &str, shm: *mut Shared) {
    let f: extern "C" fn(*const libc::c_char, *mut libc::c_void) -> i32 = unsafe { std::mem::transmute(sym("dsim_enable")) };
    let c = CString::new(cfg).unwrap(); f(c.as_ptr(), shm as *mut _);
}
fn dsim_disable() { let f: extern "C" fn() = unsafe { std::mem::transmute(sym("dsim_disable")) }; f() }
pub fn yield_point(tag: u64) {
    static mut F: Option<extern "C" fn(u64)> = None;
    unsafe {
        #[allow(static_mut_refs)]
        if F.is_none() { F = Some(std::mem::transmute(sym("dsim_yield"))); }
        #[allow(static_mut_refs)]
        if let Some(f) = F { f(tag) }
    }
}
pub fn tid() -> i32 { let f: extern "C" fn() -> i32 = unsafe { std::mem::transmute(sym("dsim_tid")) }; f() }
pub fn check_layout() { let f: extern "C" fn() -> usize = unsafe { std::mem::transmute(sym("dsim_shared_size")) }; assert_eq!(f(), std::mem::size_of::<Shared>(), "shared layout"); }

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Stats { pub c: BTreeMap<String, u64>, pub sched: Vec<u64>, pub log: Vec<u64>, pub sim_ns: u64 }
impl Stats {
    pub fn add(&mut self, k: &str, v: u64) { if v > 0 { *self.c.entry(k.to_string()).or_default() += v; } }
    pub fn take(&mut self, s: &Shared) {
        for (k, v) in [("steps", s.steps), ("thread_switches", s.switches), ("preemptions", s.preempts), ("entropy_calls", s.ent_calls), ("clock_reads", s.clock_calls),
            ("fs_mutations", s.mut_ops), ("fs_reads", s.read_ops), ("fs_stats", s.stat_ops), ("threads", s.threads), ("futex_waits", s.futex_waits), ("futex_wakes", s.futex_wakes), ("timeouts_fired", s.futex_timeouts),
            ("fault.spurious_wakeup", s.spurious), ("fault.clock_jump", s.clock_jumps), ("fault.disk_full", s.full_hits), ("fault.lost_unsynced_file", s.lost_unsynced),
            ("dirs_shuffled", s.dirs_shuffled), ("fault.entropy_eintr", s.ent_eintr), ("leaks", s.leaks)] { self.add(k, v); }
        for (i, k) in FAULT_KINDS.iter().enumerate() { self.add(&format!("fault.{}", k), s.fault_fired[i]); self.add(&format!("fault.read_{}", k), s.read_fault_fired[i]); self.add(&format!("fault.stat_{}", k), s.stat_fault_fired[i]); }
        self.sim_ns += s.sim_ns; self.add("phases", 1);
        if s.leaks > 0 { let m = s.leakmsg; let n = m.iter().position(|b| *b == 0).unwrap_or(m.len()); self.add(&format!("leak: {}", String::from_utf8_lossy(&m[..n])), s.leaks); }
        if s.switches > 0 { self.sched.push(s.schedhash); }
        self.log.push(s.loghash);
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Exit { Ok, Code(i32), Crash, StepCap, Deadlock, CpuCap, Signal(i32), Wall }
fn exit_of(status: i32) -> Exit {
    if libc::WIFEXITED(status) { match libc::WEXITSTATUS(status) { 0 => Exit::Ok, 86 => Exit::Crash, 97 => Exit::StepCap, 96 => Exit::Deadlock, c => Exit::Code(c) } }
    else { match libc::WTERMSIG(status) { libc::SIGXCPU => Exit::CpuCap, libc::SIGALRM => Exit::Wall, s => Exit::Signal(s) } }
}

pub struct Shm { pub ptr: *mut Shared, pub path: PathBuf }
impl Shm {
    pub fn new(path: &Path) -> Shm {
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(path).expect("shm");
        f.set_len(std::mem::size_of::<Shared>() as u64).unwrap();
        use std::os::fd::AsRawFd;
        let p = unsafe { libc::mmap(std::ptr::null_mut(), std::mem::size_of::<Shared>(), libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0) };
        assert!(p != libc::MAP_FAILED);
        Shm { ptr: p as *mut Shared, path: path.to_path_buf() }
    }
    pub fn get(&self) -> &Shared { unsafe { &*self.ptr } }
    pub fn reset(&self) { unsafe { let s = &mut *self.ptr; s.magic = 0; s.steps = 0; s.ndev = 0; s.oplen = 0; s.exit_reason = 0; s.leaks = 0; s.dev_overflow = 0; } }
    pub fn oplog(&self) -> Vec<String> { let s = self.get(); String::from_utf8_lossy(&s.oplog[..(s.oplen as usize).min(OPLOG)]).lines().map(|l| l.to_string()).collect() }
    pub fn devs(&self) -> Option<Vec<(u32, u32)>> { let s = self.get(); if s.dev_overflow != 0 { return None; } Some((0..s.ndev as usize).map(|i| (s.dev_step[i], s.dev_tid[i])).collect()) }
}

struct Snd<T>(T);
unsafe impl<T> Send for Snd<T> {}
impl<T> Snd<T> { fn get(self) -> T { self.0 } }

/// Handle inside a forked child: runs code under the simulator.
pub struct Child { cfg: String, shm: *mut Shared, used: bool }
impl Child {
    /// Runs `f` in a fresh simulated thread; a panic of the code comes back as Err(message).
    pub fn sim<T, F: FnOnce() -> T>(&mut self, f: F) -> Result<T, String> {
        assert!(!self.used, "one simulated section per phase"); self.used = true;
        dsim_enable(&self.cfg, self.shm);
        let f = Snd(f); let mut slot: Option<Snd<Result<T, String>>> = None; let sp = Snd(&mut slot as *mut _);
        std::thread::scope(|s| {
            let h = std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, move || {
                let sp: *mut Option<Snd<Result<T, String>>> = sp.get(); let f = f.get();
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|e| panic_msg(&e));
                unsafe { *sp = Some(Snd(r)); }
            }).unwrap();
            let _ = h.join();
        });
        dsim_disable();
        slot.unwrap().get()
    }
}
pub fn panic_msg(e: &Box<dyn std::any::Any + Send>) -> String {
    fn cut(s: &str) -> String { s.split("Exception raised from").next().unwrap_or("").to_string() } // libtorch appends a stack trace with addresses
    if let Some(s) = e.downcast_ref::<&str>() { cut(s) } else if let Some(s) = e.downcast_ref::<String>() { cut(s) } else { "panic".into() }
}

const DATA_MAX: u64 = 3 << 30; // a phase that allocates without end dies instead of the machine
pub struct PhaseOut { pub exit: Exit, pub out: Value, pub stdout: String }

/// Forks a child in `root` and runs `f` there; the child's JSON result comes back.
pub fn phase<F: FnOnce(&mut Child) -> Value>(root: &Path, shm: &Shm, cfg: &SimCfg, stats: &mut Stats, f: F) -> PhaseOut {
    let mut fds = [0i32; 2];
    assert_eq!(unsafe { libc::pipe(fds.as_mut_ptr()) }, 0);
    shm.reset();
    let text = cfg.text(root); let outp = root.with_extension("out");
    let pid = unsafe { libc::fork() };
    assert!(pid >= 0, "fork");
    if pid == 0 {
        unsafe {
            libc::close(fds[0]);
            std::env::set_current_dir(root).unwrap();
            let rl = libc::rlimit { rlim_cur: cfg.cpu_s, rlim_max: cfg.cpu_s + 3 }; libc::setrlimit(libc::RLIMIT_CPU, &rl);
            let rd = libc::rlimit { rlim_cur: DATA_MAX, rlim_max: DATA_MAX }; libc::setrlimit(libc::RLIMIT_DATA, &rd);
            libc::alarm(600);
            std::fs::File::create(&outp).unwrap(); let o = std::fs::OpenOptions::new().append(true).open(&outp).unwrap(); use std::os::fd::AsRawFd;
            libc::dup2(o.as_raw_fd(), 1);
            if std::env::var_os("DSIM_STDERR").is_none() { libc::dup2(std::fs::OpenOptions::new().append(true).open(&outp).unwrap().as_raw_fd(), 2); }
        }
        tch::manual_seed(mix(cfg.seed ^ 0x7c) as i64 >> 1); // networks made from scratch depend on the run alone
        let mut c = Child { cfg: text, shm: shm.ptr, used: false };
        let v = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut c))) { Ok(v) => v, Err(e) => json!({"__harness_panic": panic_msg(&e)}) };
        let b = serde_json::to_vec(&v).unwrap();
        let mut o = 0; while o < b.len() { let w = unsafe { libc::write(fds[1], b[o..].as_ptr() as *const _, b.len() - o) }; if w <= 0 { break; } o += w as usize; }
        let _ = std::io::stdout().flush();
        unsafe { libc::_exit(0) }
    }
    unsafe { libc::close(fds[1]); }
    let mut buf = vec![];
    { use std::os::fd::FromRawFd; let mut r = unsafe { std::fs::File::from_raw_fd(fds[0]) }; let _ = r.read_to_end(&mut buf); }
    let mut st = 0; while unsafe { libc::waitpid(pid, &mut st, 0) } < 0 {}
    if shm.get().magic == 0xd1e51 { stats.take(shm.get()); }
    let out = serde_json::from_slice(&buf).unwrap_or(Value::Null);
    let stdout = std::fs::read(&outp).map(|b| String::from_utf8_lossy(&b).into_owned()).unwrap_or_default();
    PhaseOut { exit: exit_of(st), out, stdout }
}

/// The real `die-e` program, forked from a zygote for each run.
pub struct Zygote { child: std::process::Child, req: std::fs::File, rep: std::fs::File }
impl Zygote {
    pub fn start(bin: &Path, preload: &str) -> Zygote {
        use std::os::fd::FromRawFd;
        let (mut a, mut b) = ([0i32; 2], [0i32; 2]);
        unsafe { libc::pipe(a.as_mut_ptr()); libc::pipe(b.as_mut_ptr()); libc::fcntl(a[1], libc::F_SETFD, libc::FD_CLOEXEC); libc::fcntl(b[0], libc::F_SETFD, libc::FD_CLOEXEC); }
        let child = std::process::Command::new(bin).env("LD_PRELOAD", preload).env("DIESIM_ZYGOTE", format!("{},{}", a[0], b[1])).stdin(std::process::Stdio::null()).spawn().expect("zygote");
        unsafe { libc::close(a[0]); libc::close(b[1]); Zygote { child, req: std::fs::File::from_raw_fd(a[1]), rep: std::fs::File::from_raw_fd(b[0]) } }
    }
    pub fn run(&mut self, root: &Path, shm: &Shm, cfg: &SimCfg, stats: &mut Stats, stdin: &str, args: &[String]) -> CliOut {
        shm.reset();
        let (o, e, i) = (root.with_extension("cout"), root.with_extension("cerr"), root.with_extension("cin"));
        std::fs::write(&i, stdin).unwrap();
        let mut m: Vec<u8> = vec![];
        let mut put = |s: &str| { m.extend(s.as_bytes()); m.push(0); };
        put(root.to_str().unwrap()); put(&cfg.text(root)); put(shm.path.to_str().unwrap()); put(i.to_str().unwrap()); put(o.to_str().unwrap()); put(e.to_str().unwrap()); put(&cfg.cpu_s.to_string());
        put("die-e"); for a in args { put(a); }
        self.req.write_all(&(m.len() as u32).to_ne_bytes()).unwrap(); self.req.write_all(&m).unwrap();
        let mut r = [0u8; 4]; self.rep.read_exact(&mut r).expect("zygote died");
        if shm.get().magic == 0xd1e51 { stats.take(shm.get()); }
        let rd = |p: &Path| std::fs::read(p).map(|b| String::from_utf8_lossy(&b).into_owned()).unwrap_or_default();
        CliOut { exit: exit_of(i32::from_ne_bytes(r)), stdout: rd(&o), stderr: rd(&e) }
    }
}
impl Drop for Zygote { fn drop(&mut self) { let _ = self.child.kill(); let _ = self.child.wait(); } }
#[derive(Debug)]
pub struct CliOut { pub exit: Exit, pub stdout: String, pub stderr: String }
