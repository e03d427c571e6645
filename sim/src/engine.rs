//! Running scenarios: fork per run, parallel seeded search, determinism audit,
//! minimisation, replay files and evidence.
use crate::gen::{fnv, Gen};
use crate::rt::{self, Config, Rec, Stats};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use serde_json::{json, Value};
use std::cell::UnsafeCell;
use std::collections::{BTreeMap, HashSet};
use std::io::{Read, Write};
use std::os::fd::FromRawFd;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::OnceLock;
use std::time::{Duration, Instant};

// ------------------------------------------------------------------ run context
#[derive(Default)]
struct CxInner {
    history: Vec<String>,
    seq: u64,
    hash: u64,
    probes: BTreeMap<String, u64>,
    nontrivial: bool,
    current: BTreeMap<i32, String>,
    expect_deadlock_free: bool,
    out_fd: i32,
    last_panic: BTreeMap<i32, String>,
    want_trace: bool,
}
pub struct Cx(UnsafeCell<CxInner>);
unsafe impl Sync for Cx {}
unsafe impl Send for Cx {}
static CX: OnceLock<Cx> = OnceLock::new();

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Outcome {
    pub sig: Option<String>,
    pub msg: String,
    pub history_hash: u64,
    pub rt_hash: u64,
    pub nontrivial: bool,
    pub probes: BTreeMap<String, u64>,
    pub stats: BTreeMap<String, u64>,
    pub fired: BTreeMap<String, u64>,
    pub points: BTreeMap<String, u64>,
    pub sched: Vec<Rec>,
    pub faults: Vec<Rec>,
    pub history: Vec<String>,
    pub inconclusive: bool,
}

impl Cx {
    #[allow(clippy::mut_from_ref)]
    fn i(&self) -> &mut CxInner {
        // exactly one simulated thread runs at a time, and every use is inside a Quiet section
        unsafe { &mut *self.0.get() }
    }
    /// Append to the recorded history. Returns the global event sequence number.
    pub fn log(&self, s: impl AsRef<str>) -> u64 {
        let _q = rt::Quiet::new();
        let i = self.i();
        i.seq += 1;
        let s = s.as_ref();
        i.hash = (i.hash ^ fnv(s.as_bytes()) ^ (rt::self_id() as u64)).wrapping_mul(0x100000001b3).rotate_left(5);
        if i.history.len() >= 4000 {
            i.history.drain(..1000);
        }
        let line = format!("#{} t={}ns T{} {}", i.seq, rt::mono(), rt::self_id(), s);
        i.history.push(line);
        i.seq
    }
    /// A global sequence number without a log line.
    pub fn stamp(&self) -> u64 {
        let _q = rt::Quiet::new();
        let i = self.i();
        i.seq += 1;
        i.seq
    }
    pub fn probe(&self, name: &str) {
        let _q = rt::Quiet::new();
        *self.i().probes.entry(name.to_string()).or_default() += 1;
    }
    pub fn nontrivial(&self) {
        self.i().nontrivial = true;
    }
    /// Label what this thread is doing (shown if the run gets stuck).
    pub fn doing(&self, s: impl Into<String>) {
        let _q = rt::Quiet::new();
        let s = s.into();
        label(&s);
        self.i().current.insert(rt::self_id(), s);
    }
    pub fn fail(&self, sig: impl AsRef<str>, msg: impl AsRef<str>) -> ! {
        let _q = rt::Quiet::new();
        self.finish(Some(sig.as_ref().to_string()), msg.as_ref().to_string(), false)
    }
    pub fn check(&self, ok: bool, sig: &str, msg: impl FnOnce() -> String) {
        if !ok {
            let m = rt::quiet(msg);
            self.fail(sig, m)
        }
    }
    /// Run `f`, turning a panic into its message.
    pub fn catch<R>(&self, f: impl FnOnce() -> R) -> Result<R, String> {
        match catch_unwind(AssertUnwindSafe(f)) {
            Ok(r) => Ok(r),
            Err(e) => {
                let _q = rt::Quiet::new();
                std::mem::forget(e);
                Err(self.i().last_panic.remove(&rt::self_id()).unwrap_or_else(|| "panic".into()))
            }
        }
    }
    pub fn spawn(&'static self, name: &str, f: impl FnOnce() + Send + 'static) -> std::thread::JoinHandle<()> {
        let name = rt::quiet(|| name.to_string());
        let b = std::thread::Builder::new();
        b.spawn(move || {
            if let Err(p) = self.catch(f) {
                let _q = rt::Quiet::new();
                let op = self.i().current.get(&rt::self_id()).cloned().unwrap_or_default();
                let k = op.split_whitespace().next().unwrap_or("").to_string();
                self.finish(Some(format!("panic:{k}")), format!("client {name} panicked during `{op}`: {p}"), false)
            }
        })
        .expect("spawn")
    }
    /// Wait for all clients; true if the simulated process crashed instead.
    pub fn wait(&self) -> bool {
        rt::wait_clients()
    }
    fn finish(&self, sig: Option<String>, msg: String, inconclusive: bool) -> ! {
        let i = self.i();
        let st = rt::stats();
        let (sched, faults, rt_hash) = rt::trace();
        let keep = sig.is_some() || i.want_trace;
        let o = outcome_of(i, &st, sig, msg, rt_hash, if keep { (sched, faults) } else { (vec![], vec![]) }, keep, inconclusive);
        let buf = serde_json::to_vec(&o).unwrap();
        let mut off = 0;
        while off < buf.len() {
            let n = unsafe { libc::write(i.out_fd, buf[off..].as_ptr() as *const _, buf.len() - off) };
            if n <= 0 {
                break;
            }
            off += n as usize;
        }
        unsafe { libc::_exit(0) }
    }
}
#[allow(clippy::too_many_arguments)]
fn outcome_of(i: &mut CxInner, st: &Stats, sig: Option<String>, msg: String, rt_hash: u64, tr: (Vec<Rec>, Vec<Rec>), keep: bool, inconclusive: bool) -> Outcome {
    let mut stats = BTreeMap::new();
    for (k, v) in [
        ("steps", st.steps), ("switches", st.switches), ("preemptions", st.preempt), ("futex_waits", st.futex_waits),
        ("clock_reads", st.clock_reads), ("sim_ns", st.sim_ns), ("fault_queries", st.fault_queries), ("threads", st.nthreads),
        ("io_calls", st.io_calls), ("trace_overflow", st.rec_overflow),
    ] {
        stats.insert(k.to_string(), v);
    }
    let mut fired = BTreeMap::new();
    for (k, v) in rt::FAULT_NAMES.iter().zip(st.fired) {
        if v > 0 {
            fired.insert(k.to_string(), v);
        }
    }
    let mut points = BTreeMap::new();
    for (k, v) in rt::POINT_NAMES.iter().zip(st.points) {
        if v > 0 {
            points.insert(k.to_string(), v);
        }
    }
    Outcome {
        sig, msg, history_hash: i.hash, rt_hash, nontrivial: i.nontrivial, probes: i.probes.clone(), stats, fired, points,
        sched: tr.0, faults: tr.1, history: if keep { i.history.clone() } else { vec![] }, inconclusive,
    }
}

#[no_mangle]
extern "C" fn rt_on_stuck(kind: i32) -> ! {
    let cx = CX.get().unwrap();
    let i = cx.i();
    let mut who = vec![];
    for t in 0..64 {
        let (s, a) = rt::thread_state(t);
        if s < 0 {
            break;
        }
        if s == 5 || s == 0 {
            continue;
        }
        let name = ["unused", "runnable", "blocked on a lock", "sleeping", "joining", "done"][s as usize];
        who.push(format!("T{t} {name}{} during `{}`", if s == 2 { format!(" {a:#x}") } else { String::new() }, i.current.get(&t).cloned().unwrap_or_default()));
    }
    let (sig, what) = if kind == rt::DEADLOCK { ("deadlock", "no thread can ever run again") } else { ("no-progress", "step budget exhausted") };
    cx.finish(Some(sig.into()), format!("{what}: {}", who.join("; ")), false)
}

/// Value shared between simulated threads without adding scheduling points.
pub struct Shared<T>(UnsafeCell<T>);
unsafe impl<T> Sync for Shared<T> {}
unsafe impl<T> Send for Shared<T> {}
impl<T> Shared<T> {
    pub fn new(t: T) -> &'static Shared<T> {
        let _q = rt::Quiet::new();
        Box::leak(Box::new(Shared(UnsafeCell::new(t))))
    }
    pub fn with<R>(&self, f: impl FnOnce(&mut T) -> R) -> R {
        let _q = rt::Quiet::new();
        f(unsafe { &mut *self.0.get() })
    }
}

// ------------------------------------------------------------------ scenarios
pub trait Scenario: Sync + Send {
    type Plan: Serialize + DeserializeOwned + Clone + Send + Sync + 'static;
    fn name(&self) -> &'static str;
    fn gen(&self, g: &mut Gen) -> Self::Plan;
    /// Done once in the parent, before any run is forked.
    fn prepare(&self) {}
    /// Adjust the default schedule/fault configuration for this run (swarm tuning).
    fn tune(&self, _plan: &Self::Plan, _g: &mut Gen, _cfg: &mut Config) {}
    /// Runs in the forked child as simulated thread 0.
    fn run(&self, plan: &'static Self::Plan, cx: &'static Cx);
}
pub trait DynScenario: Sync + Send {
    fn name(&self) -> &'static str;
    fn prepare_parent(&self);
    fn gen_plan(&self, g: &mut Gen) -> Value;
    fn tune_cfg(&self, plan: &Value, g: &mut Gen, cfg: &mut Config);
    fn parses(&self, plan: &Value) -> bool;
    fn run_plan(&self, plan: &Value, cx: &'static Cx, cfg: &Config, s: &[Rec], f: &[Rec]);
}
impl<S: Scenario> DynScenario for S {
    fn name(&self) -> &'static str {
        Scenario::name(self)
    }
    fn prepare_parent(&self) {
        self.prepare()
    }
    fn gen_plan(&self, g: &mut Gen) -> Value {
        serde_json::to_value(self.gen(g)).unwrap()
    }
    fn tune_cfg(&self, plan: &Value, g: &mut Gen, cfg: &mut Config) {
        let p: S::Plan = serde_json::from_value(plan.clone()).unwrap();
        self.tune(&p, g, cfg)
    }
    fn parses(&self, plan: &Value) -> bool {
        serde_json::from_value::<S::Plan>(plan.clone()).is_ok()
    }
    fn run_plan(&self, plan: &Value, cx: &'static Cx, cfg: &Config, s: &[Rec], f: &[Rec]) {
        let p: S::Plan = serde_json::from_value(plan.clone()).unwrap();
        let p: &'static S::Plan = Box::leak(Box::new(p));
        rt::begin(cfg, s, f);
        self.run(p, cx);
    }
}

pub struct Part {
    pub sc: Box<dyn DynScenario>,
    pub quick: u64,
    pub thorough: u64,
}
pub fn part<S: Scenario + 'static>(s: S, quick: u64, thorough: u64) -> Part {
    Part { sc: Box::new(s), quick, thorough }
}
pub struct Check {
    pub id: &'static str,
    pub real: &'static str,
    pub stub: &'static str,
    pub rule: &'static str,
    pub parts: Vec<Part>,
}

pub fn default_cfg(seed: u64) -> Config {
    let mut g = Gen::new(seed ^ 0xC0F1);
    let mut c = Config {
        seed,
        max_steps: 3_000_000,
        tick_ns: *g.pick(&[1, 20, 100, 1000]),
        mono0: 1_000_000_000_000 + g.below(1_000_000_000_000),
        real0: 1_700_000_000_000_000_000 + g.below(1_000_000_000_000_000),
        mono_granularity: 0,
        real_granularity: 0,
        disk_capacity: 0,
        replay: 0,
        strategy: rt::RANDOM,
        pct_d: 0,
        p_stall: 0,
        pct_at: [u64::MAX; rt::MAXPCT],
        p_switch: [0; rt::NPOINT],
        p_fault: [0; rt::NFAULT],
    };
    match g.below(100) {
        0..=9 => c.strategy = rt::SERIAL,
        10..=34 => {
            c.strategy = rt::PCT;
            c.pct_d = g.range(1, 5) as i32;
            let h = 1u64 << g.range(5, 13);
            for k in 0..c.pct_d as usize {
                c.pct_at[k] = 1 + g.below(h);
            }
        }
        _ => {
            let base = *g.pick(&[32768u32, 16384, 8192, 2048, 512, 128]);
            // swarm: some runs preempt only at some kinds of points
            for k in 0..rt::NPOINT {
                c.p_switch[k] = base;
            }
            match g.below(4) {
                0 => {
                    c.p_switch[rt::P_ALLOC] = 0;
                    c.p_switch[rt::P_ATOMIC] = 0;
                }
                1 => c.p_switch[rt::P_ALLOC] = base / 8,
                2 => c.p_switch[rt::P_ATOMIC] = base / 4,
                _ => {}
            }
            c.p_switch[rt::P_USER] = 32768;
            if g.chance(1, 6) {
                c.p_stall = 4096;
            }
        }
    }
    if g.chance(1, 3) {
        c.p_fault[rt::F_SPURIOUS] = 6000;
        c.p_fault[rt::F_WAKE_ORDER] = 20000;
    }
    c
}

// ------------------------------------------------------------------ one forked run
pub struct RunSpec<'a> {
    pub sc: &'a dyn DynScenario,
    pub plan: &'a Value,
    pub cfg: &'a Config,
    pub sched: &'a [Rec],
    pub faults: &'a [Rec],
    pub want_trace: bool,
}
/// A page shared with the child, which says there what it is doing in case it dies.
fn page() -> *mut u8 {
    static P: std::sync::OnceLock<usize> = std::sync::OnceLock::new();
    // SAFETY: a fresh anonymous mapping, used by one parent and one child at a time
    *P.get_or_init(|| unsafe { libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0) } as usize) as *mut u8
}
fn label(s: &str) {
    let n = s.len().min(4000);
    unsafe {
        std::ptr::copy_nonoverlapping(s.as_ptr(), page().add(2), n);
        *(page() as *mut u16) = n as u16;
    }
}
fn labelled() -> String {
    unsafe {
        let n = *(page() as *const u16) as usize;
        String::from_utf8_lossy(std::slice::from_raw_parts(page().add(2), n)).into_owned()
    }
}
const MEM_LIMIT: usize = 1 << 30;
const CPU_LIMIT: u64 = 20;
const WALL_LIMIT: u32 = 240;

pub fn run_forked(r: &RunSpec) -> Outcome {
    unsafe {
        let mut p = [0i32; 2];
        assert_eq!(libc::pipe(p.as_mut_ptr()), 0);
        label("");
        let pid = libc::fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            libc::close(p[0]);
            let lim = libc::rlimit { rlim_cur: CPU_LIMIT, rlim_max: CPU_LIMIT + 2 };
            libc::setrlimit(libc::RLIMIT_CPU, &lim);
            rt::heap_limit(MEM_LIMIT);
            let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &core);
            libc::alarm(WALL_LIMIT);
            if std::env::var_os("ASSSIM_STDERR").is_none() {
                let n = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
                if n >= 0 {
                    libc::dup2(n, 2);
                    libc::close(n);
                }
            }
            child(r, p[1]);
        }
        libc::close(p[1]);
        let mut f = std::fs::File::from_raw_fd(p[0]);
        let mut buf = vec![];
        let _ = f.read_to_end(&mut buf);
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        if libc::WIFSIGNALED(st) {
            let s = libc::WTERMSIG(st);
            let mut o = Outcome::default();
            if s == libc::SIGXCPU || s == libc::SIGKILL {
                o.sig = Some("hang".into());
                o.msg = format!("the run burned {CPU_LIMIT} s of CPU without finishing `{}`", labelled());
                if s == libc::SIGKILL {
                    o.sig = None;
                    o.inconclusive = true;
                }
            } else if s == libc::SIGALRM {
                o.inconclusive = true;
                o.msg = "wall limit".into();
            } else if s == libc::SIGXFSZ {
                o.sig = Some("memory".into());
                o.msg = format!("the run took more than {} MiB of memory in `{}`", MEM_LIMIT >> 20, labelled());
            } else {
                o.sig = Some(format!("crash:signal{s}"));
                o.msg = format!("the process died on signal {s} in `{}`", labelled());
            }
            return o;
        }
        match serde_json::from_slice(&buf) {
            Ok(o) => o,
            Err(e) => Outcome { inconclusive: true, msg: format!("unreadable outcome ({e}), status {st}: {}", String::from_utf8_lossy(&buf[..buf.len().min(200)])), ..Default::default() },
        }
    }
}
fn child(r: &RunSpec, fd: i32) -> ! {
    let _ = CX.set(Cx(UnsafeCell::new(CxInner { out_fd: fd, hash: 1, expect_deadlock_free: true, want_trace: r.want_trace, ..Default::default() })));
    let cx: &'static Cx = CX.get().unwrap();
    std::panic::set_hook(Box::new(|info| {
        let _q = rt::Quiet::new();
        let m = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let l = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let last = &mut CX.get().unwrap().i().last_panic;
        if std::env::var_os("ASSSIM_STDERR").is_some() {
            eprintln!("panic: {m} at {l}");
        }
        last.insert(rt::self_id(), format!("{m} at {l}"));
    }));
    let res = cx.catch(|| r.sc.run_plan(r.plan, cx, r.cfg, r.sched, r.faults));
    let _q = rt::Quiet::new();
    match res {
        Ok(()) => cx.finish(None, String::new(), false),
        Err(p) => {
            let op = cx.i().current.get(&rt::self_id()).cloned().unwrap_or_default();
            let k = op.split_whitespace().next().unwrap_or("").to_string();
            cx.finish(Some(format!("panic:{k}")), format!("panicked during `{op}`: {p}"), false)
        }
    }
}

fn seed_for(base: u64, part: usize, i: u64) -> u64 {
    let mut g = Gen::new(base ^ ((part as u64) << 48) ^ i.wrapping_mul(0x9E37_79B9_7F4A_7C15));
    g.u64()
}
pub fn spec_for(sc: &dyn DynScenario, seed: u64) -> (Value, Config) {
    let mut g = Gen::new(seed);
    let plan = sc.gen_plan(&mut g);
    let mut cfg = default_cfg(seed);
    sc.tune_cfg(&plan, &mut g, &mut cfg);
    (plan, cfg)
}
pub fn run_seed(sc: &dyn DynScenario, seed: u64, want_trace: bool) -> Outcome {
    let (plan, cfg) = spec_for(sc, seed);
    run_forked(&RunSpec { sc, plan: &plan, cfg: &cfg, sched: &[], faults: &[], want_trace })
}

// ------------------------------------------------------------------ aggregation
#[derive(Default, Serialize, Deserialize, Clone)]
pub struct Agg {
    pub runs: u64,
    pub nontrivial: u64,
    pub inconclusive: u64,
    pub inconclusive_msgs: Vec<String>,
    pub stats: BTreeMap<String, u64>,
    pub max_steps: u64,
    pub fired: BTreeMap<String, u64>,
    pub runs_with: BTreeMap<String, u64>,
    pub points: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub audited: u64,
    pub audit_mismatch: u64,
    pub audit_samples: Vec<u64>,
    pub schedules: HashSet<u64>,
    pub executions: HashSet<u64>,
    pub nt_exec: HashSet<u64>,
    pub violation: Option<(u64, u64)>, // (index, seed)
    pub samples: Vec<Value>,
}
impl Agg {
    fn add(&mut self, plan_hash: u64, o: &Outcome) {
        self.runs += 1;
        if o.inconclusive {
            self.inconclusive += 1;
            if self.inconclusive_msgs.len() < 3 {
                self.inconclusive_msgs.push(o.msg.clone());
            }
            return;
        }
        for (k, v) in &o.stats {
            *self.stats.entry(k.clone()).or_default() += v;
        }
        self.max_steps = self.max_steps.max(*o.stats.get("steps").unwrap_or(&0));
        for (k, v) in &o.fired {
            *self.fired.entry(k.clone()).or_default() += v;
            *self.runs_with.entry(k.clone()).or_default() += 1;
        }
        for (k, v) in &o.points {
            *self.points.entry(k.clone()).or_default() += v;
        }
        for (k, v) in &o.probes {
            *self.probes.entry(k.clone()).or_default() += v;
        }
        self.schedules.insert(o.rt_hash);
        let e = plan_hash ^ o.rt_hash.rotate_left(17) ^ o.history_hash.rotate_left(31);
        self.executions.insert(e);
        if o.nontrivial {
            self.nontrivial += 1;
            self.nt_exec.insert(e);
        }
    }
    pub fn absorb(&mut self, o: Agg) {
        self.merge(o)
    }
    fn merge(&mut self, o: Agg) {
        self.runs += o.runs;
        self.nontrivial += o.nontrivial;
        self.inconclusive += o.inconclusive;
        self.inconclusive_msgs.extend(o.inconclusive_msgs);
        self.max_steps = self.max_steps.max(o.max_steps);
        for (a, b) in [(&mut self.stats, o.stats), (&mut self.fired, o.fired), (&mut self.runs_with, o.runs_with), (&mut self.points, o.points), (&mut self.probes, o.probes)] {
            for (k, v) in b {
                *a.entry(k).or_default() += v;
            }
        }
        self.audited += o.audited;
        self.audit_mismatch += o.audit_mismatch;
        self.audit_samples.extend(o.audit_samples);
        self.schedules.extend(o.schedules);
        self.executions.extend(o.executions);
        self.nt_exec.extend(o.nt_exec);
        self.samples.extend(o.samples);
        self.violation = match (self.violation, o.violation) {
            (Some(a), Some(b)) => Some(a.min(b)),
            (a, b) => a.or(b),
        };
    }
}

pub fn workers() -> usize {
    std::env::var("ASSSIM_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4)).clamp(1, 32)
}

fn shared_flag() -> *mut u64 {
    unsafe {
        let p = libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
        assert!(p != libc::MAP_FAILED);
        *(p as *mut u64) = u64::MAX;
        p as *mut u64
    }
}

/// Explore `runs` seeds of one scenario in parallel; stops early (deterministically) at
/// the violating seed of lowest index.
pub fn explore(sc: &dyn DynScenario, part: usize, base: u64, runs: u64, deadline: Instant) -> Agg {
    let w = workers() as u64;
    let flag = shared_flag();
    let mut kids = vec![];
    std::io::stdout().flush().ok();
    for k in 0..w {
        unsafe {
            let mut p = [0i32; 2];
            assert_eq!(libc::pipe(p.as_mut_ptr()), 0);
            let pid = libc::fork();
            assert!(pid >= 0);
            if pid == 0 {
                libc::close(p[0]);
                // pin: exactly one simulated thread runs at a time, so one core is enough
                let mut set: libc::cpu_set_t = std::mem::zeroed();
                libc::CPU_SET(k as usize, &mut set);
                if w > 1 {
                    libc::sched_setaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &set);
                }
                let mut a = Agg::default();
                let mut i = k;
                while i < runs && Instant::now() < deadline {
                    if i > std::ptr::read_volatile(flag) {
                        break;
                    }
                    let seed = seed_for(base, part, i);
                    let (plan, cfg) = spec_for(sc, seed);
                    let want = i < 2;
                    let o = run_forked(&RunSpec { sc, plan: &plan, cfg: &cfg, sched: &[], faults: &[], want_trace: want });
                    let ph = fnv(plan.to_string().as_bytes());
                    a.add(ph, &o);
                    if i % 61 == 7 || i == 1 {
                        let o2 = run_forked(&RunSpec { sc, plan: &plan, cfg: &cfg, sched: &[], faults: &[], want_trace: false });
                        a.audited += 1;
                        if (o2.rt_hash, o2.history_hash, &o2.sig) != (o.rt_hash, o.history_hash, &o.sig) {
                            a.audit_mismatch += 1;
                            a.audit_samples.push(seed);
                        }
                    }
                    if want && o.sig.is_none() {
                        let mut h = o.history.clone();
                        h.truncate(40);
                        a.samples.push(json!({"scenario": sc.name(), "seed": seed.to_string(), "plan": trim(&plan, 1500), "schedule_switches": o.sched.len(), "faults": o.faults.iter().take(20).map(|f| json!([f.at, rt::FAULT_NAMES[f.kind as usize], f.val])).collect::<Vec<_>>(), "history": h}));
                    }
                    if o.sig.is_some() {
                        a.violation = Some((i, seed));
                        loop {
                            let cur = std::ptr::read_volatile(flag);
                            if i >= cur {
                                break;
                            }
                            std::ptr::write_volatile(flag, i);
                        }
                        break;
                    }
                    i += w;
                }
                let buf = serde_json::to_vec(&a).unwrap();
                let mut f = std::fs::File::from_raw_fd(p[1]);
                let _ = f.write_all(&buf);
                drop(f);
                libc::_exit(0);
            }
            libc::close(p[1]);
            kids.push((pid, p[0]));
        }
    }
    // read every worker's pipe (each writes once, at its end)
    let mut agg = Agg::default();
    for (pid, fd) in kids {
        let mut f = unsafe { std::fs::File::from_raw_fd(fd) };
        let mut buf = vec![];
        let _ = f.read_to_end(&mut buf);
        let mut st = 0;
        unsafe { libc::waitpid(pid, &mut st, 0) };
        match serde_json::from_slice::<Agg>(&buf) {
            Ok(a) => agg.merge(a),
            Err(e) => {
                eprintln!("asssim: a worker died (status {st}): {e}");
                std::process::exit(3);
            }
        }
    }
    unsafe { libc::munmap(flag as *mut _, 4096) };
    agg
}

pub fn survey(sc: &dyn DynScenario, part: usize, base: u64, runs: u64) -> BTreeMap<String, (u64, u64, String)> {
    let w = workers() as u64;
    let mut kids = vec![];
    std::io::stdout().flush().ok();
    for k in 0..w {
        unsafe {
            let mut p = [0i32; 2];
            assert_eq!(libc::pipe(p.as_mut_ptr()), 0);
            let pid = libc::fork();
            if pid == 0 {
                libc::close(p[0]);
                let mut m: BTreeMap<String, (u64, u64, String)> = BTreeMap::new();
                let mut i = k;
                while i < runs {
                    let seed = seed_for(base, part, i);
                    let o = run_seed(sc, seed, false);
                    if let Some(mut s) = o.sig {
                        if let (true, Some((_, at))) = (s.starts_with("panic:"), o.msg.rsplit_once(" at ")) {
                            s = format!("panic at {at}");
                        }
                        let e = m.entry(s).or_insert((0, seed, o.msg.clone()));
                        e.0 += 1;
                        if o.msg.len() < e.2.len() {
                            e.1 = seed;
                            e.2 = o.msg;
                        }
                    }
                    i += w;
                }
                let mut f = std::fs::File::from_raw_fd(p[1]);
                let _ = f.write_all(&serde_json::to_vec(&m).unwrap());
                drop(f);
                libc::_exit(0);
            }
            libc::close(p[1]);
            kids.push((pid, p[0]));
        }
    }
    let mut all: BTreeMap<String, (u64, u64, String)> = BTreeMap::new();
    for (pid, fd) in kids {
        let mut f = unsafe { std::fs::File::from_raw_fd(fd) };
        let mut buf = vec![];
        let _ = f.read_to_end(&mut buf);
        unsafe { libc::waitpid(pid, std::ptr::null_mut(), 0) };
        for (s, v) in serde_json::from_slice::<BTreeMap<String, (u64, u64, String)>>(&buf).unwrap_or_default() {
            let e = all.entry(s).or_insert((0, v.1, v.2.clone()));
            e.0 += v.0;
            if v.2.len() < e.2.len() {
                e.1 = v.1;
                e.2 = v.2;
            }
        }
    }
    all
}
fn trim(v: &Value, n: usize) -> Value {
    let s = v.to_string();
    if s.len() <= n {
        v.clone()
    } else {
        let mut e = n;
        while !s.is_char_boundary(e) {
            e -= 1;
        }
        Value::String(format!("{}…", &s[..e]))
    }
}

// ------------------------------------------------------------------ minimisation
#[derive(Clone, Serialize, Deserialize)]
pub struct Replay {
    pub property: String,
    pub scenario: String,
    pub seed: u64,
    pub sig: String,
    pub message: String,
    pub plan: Value,
    pub config: Config,
    pub sched: Vec<Rec>,
    pub faults: Vec<Rec>,
    pub history: Vec<String>,
}

fn nodes(v: &Value, path: &mut Vec<String>, out: &mut Vec<Vec<String>>) {
    out.push(path.clone());
    match v {
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                path.push(i.to_string());
                nodes(x, path, out);
                path.pop();
            }
        }
        Value::Object(o) => {
            for (k, x) in o {
                path.push(k.clone());
                nodes(x, path, out);
                path.pop();
            }
        }
        _ => {}
    }
}
fn at<'a>(v: &'a mut Value, p: &[String]) -> Option<&'a mut Value> {
    let mut c = v;
    for k in p {
        c = match c {
            Value::Array(a) => a.get_mut(k.parse::<usize>().ok()?)?,
            Value::Object(o) => o.get_mut(k)?,
            _ => return None,
        };
    }
    Some(c)
}
/// Generic plan shrinker: drop array elements (big chunks first), shorten strings, lower numbers.
fn candidates(plan: &Value) -> Vec<Value> {
    let mut ps = vec![];
    nodes(plan, &mut vec![], &mut ps);
    let mut out = vec![];
    for p in &ps {
        let mut c = plan.clone();
        if let Some(Value::Array(a)) = at(&mut c, p).cloned() {
            let mut chunk = a.len();
            while chunk >= 1 {
                let mut s = 0;
                while s < a.len() {
                    let e = (s + chunk).min(a.len());
                    let mut b = a.clone();
                    b.drain(s..e);
                    let mut d = plan.clone();
                    *at(&mut d, p).unwrap() = Value::Array(b);
                    out.push(d);
                    s += chunk;
                }
                chunk /= 2;
            }
        }
    }
    for p in &ps {
        let mut c = plan.clone();
        match at(&mut c, p).cloned() {
            Some(Value::String(s)) if !s.is_empty() => {
                let ch: Vec<char> = s.chars().collect();
                let mut alts: Vec<String> = vec![String::new(), ch[..ch.len() / 2].iter().collect(), ch[ch.len() / 2..].iter().collect()];
                if ch.len() > 60 {
                    let l: Vec<&str> = s.split_inclusive('\n').collect();
                    for i in 0..l.len().min(40) {
                        let mut l2 = l.clone();
                        l2.remove(i);
                        alts.push(l2.concat());
                    }
                }
                for n in alts {
                    if n != s {
                        let mut d = plan.clone();
                        *at(&mut d, p).unwrap() = Value::String(n);
                        out.push(d);
                    }
                }
            }
            Some(Value::Number(n)) => {
                if let Some(x) = n.as_u64() {
                    for y in [0, x / 2, x.saturating_sub(1)] {
                        if y < x {
                            let mut d = plan.clone();
                            *at(&mut d, p).unwrap() = json!(y);
                            out.push(d);
                        }
                    }
                }
            }
            Some(Value::Bool(true)) => {
                let mut d = plan.clone();
                *at(&mut d, p).unwrap() = json!(false);
                out.push(d);
            }
            _ => {}
        }
    }
    out
}

pub fn minimise(id: &str, sc: &dyn DynScenario, seed: u64, budget: Duration) -> Replay {
    let (plan, cfg) = spec_for(sc, seed);
    let first = run_forked(&RunSpec { sc, plan: &plan, cfg: &cfg, sched: &[], faults: &[], want_trace: true });
    let sig = first.sig.clone().unwrap_or_default();
    let mut best = Replay {
        property: id.into(), scenario: sc.name().into(), seed, sig: sig.clone(), message: first.msg.clone(), plan: plan.clone(),
        config: Config { replay: 1, ..cfg.clone() }, sched: first.sched.clone(), faults: first.faults.clone(), history: first.history.clone(),
    };
    let end = Instant::now() + budget;
    let try_rec = |b: &Replay, plan: &Value, s: &[Rec], f: &[Rec]| -> Option<Replay> {
        let o = run_forked(&RunSpec { sc, plan, cfg: &b.config, sched: s, faults: f, want_trace: true });
        if o.sig.as_deref() == Some(&sig) {
            Some(Replay { plan: plan.clone(), sched: s.to_vec(), faults: f.to_vec(), message: o.msg, history: o.history, ..b.clone() })
        } else {
            None
        }
    };
    // the recorded trace must reproduce under replay; crashes have no recorded trace (outcome lost)
    if first.sched.is_empty() && first.faults.is_empty() && (sig == "hang" || sig.starts_with("crash")) {
        best.config.replay = 0; // replay by seed: the configuration and plan determine the run
        return best;
    }
    if try_rec(&best, &plan, &first.sched, &first.faults).is_none() {
        best.config.replay = 0;
        best.sched.clear();
        best.faults.clear();
        return best;
    }
    if let Some(b) = try_rec(&best, &plan, &[], &[]) {
        best = b;
    }
    // shrink the plan; re-search a few schedules per candidate when the old trace does not fit
    let search = |b: &Replay, p: &Value, end: Instant| -> Option<Replay> {
        if let Some(r) = try_rec(b, p, &b.sched, &b.faults) {
            return Some(r);
        }
        if b.sched.is_empty() && b.faults.is_empty() {
            return None;
        }
        for k in 0..12u64 {
            if Instant::now() > end {
                return None;
            }
            let mut c = if k % 3 == 2 { let mut c = default_cfg(seed ^ k); let mut g = Gen::new(seed ^ k); sc.tune_cfg(p, &mut g, &mut c); c } else { cfg.clone() };
            c.seed = cfg.seed ^ (k * 7919);
            let o = run_forked(&RunSpec { sc, plan: p, cfg: &c, sched: &[], faults: &[], want_trace: true });
            if o.sig.as_deref() == Some(&sig) {
                return Some(Replay { plan: p.clone(), config: Config { replay: 1, ..c }, sched: o.sched, faults: o.faults, message: o.msg, history: o.history, ..b.clone() });
            }
        }
        None
    };
    let mut progress = true;
    while progress && Instant::now() < end {
        progress = false;
        let cs = candidates(&best.plan);
        let mut tried = HashSet::new();
        for c in cs {
            if Instant::now() > end {
                break;
            }
            if !tried.insert(fnv(c.to_string().as_bytes())) || !sc.parses(&c) {
                continue;
            }
            if let Some(r) = search(&best, &c, end) {
                best = r;
                progress = true;
                break;
            }
        }
    }
    // shrink the schedule and the faults
    for which in 0..2 {
        let mut chunk = if which == 0 { best.sched.len() } else { best.faults.len() };
        while chunk >= 1 && Instant::now() < end + Duration::from_secs(10) {
            let mut s = 0;
            loop {
                let cur = if which == 0 { best.sched.clone() } else { best.faults.clone() };
                if s >= cur.len() || Instant::now() > end + Duration::from_secs(10) {
                    break;
                }
                let mut t = cur.clone();
                t.drain(s..(s + chunk).min(cur.len()));
                let p = best.plan.clone();
                let r = if which == 0 { try_rec(&best, &p, &t, &best.faults) } else { try_rec(&best, &p, &best.sched, &t) };
                if let Some(r) = r {
                    best = r;
                } else {
                    s += chunk;
                }
            }
            chunk /= 2;
        }
    }
    best
}

pub fn run_replay(sc: &dyn DynScenario, r: &Replay) -> Outcome {
    run_forked(&RunSpec { sc, plan: &r.plan, cfg: &r.config, sched: &r.sched, faults: &r.faults, want_trace: true })
}
