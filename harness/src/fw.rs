//! Monitoring framework: runs workloads case by case over the real library, catches panics, lets
//! the monitors record what they observed, reports violations with a replay file and writes the
//! evidence. A case is a pure function of (seed, stream, index), so a violation is replayed by
//! running that single case again.
use crate::rng::Rng;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::Instant;

thread_local! {
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
}

/// message and place of the latest panic of this thread
pub fn last_panic() -> String { LAST_PANIC.with(|p| p.borrow().clone()) }

#[repr(C)]
struct TimeSpec { sec: i64, nsec: i64 }
extern "C" {
    fn pthread_self() -> usize;
    fn pthread_getcpuclockid(t: usize, clock: *mut i32) -> i32;
    fn clock_gettime(clock: i32, ts: *mut TimeSpec) -> i32;
}
// ---------------------------------------------------------------- crashes
// A case that kills the process (stack overflow, a failed check of unsafe code, a write to a bad address,
// memory exhausted) never answers. The handler names the case as the violation and ends the process.
#[repr(C)]
struct SigAction { handler: usize, mask: [u64; 16], flags: i32, restorer: usize }
extern "C" {
    fn sigaction(sig: i32, act: *const SigAction, old: *mut SigAction) -> i32;
    fn open(path: *const std::ffi::c_char, flags: i32, ...) -> i32;
    fn write(fd: i32, p: *const std::ffi::c_void, n: usize) -> isize;
    fn _exit(code: i32) -> !;
    fn setrlimit(which: i32, limit: *const [u64; 2]) -> i32;
}
thread_local! {
    /// the stream and case this thread works on (name, length, index)
    static CASE: std::cell::Cell<(*const u8, usize, u64)> = const { std::cell::Cell::new((std::ptr::null(), 0, 0)) };
}
/// property, tier, seed and root of this run
static RUN: std::sync::OnceLock<(String, &'static str, u64, String)> = std::sync::OnceLock::new();
/// Memory the whole process may use; ordinary runs stay far below it.
const MEMORY_LIMIT: u64 = 12 << 30;

/// text without allocating
struct Text { b: [u8; 2048], n: usize }
impl Text {
    fn s(&mut self, t: &[u8]) -> &mut Text { for c in t { if self.n < self.b.len() - 1 { self.b[self.n] = *c; self.n += 1; } } self }
    fn u(&mut self, x: u64) -> &mut Text { if x >= 10 { self.u(x / 10); } self.s(&[b'0' + (x % 10) as u8]) }
}
extern "C" fn crashed(sig: i32) {
    let (name, len, index) = CASE.with(|c| c.get());
    let run = RUN.get();
    unsafe {
        let (Some((prop, tier, seed, root)), false) = (run, name.is_null()) else {
            let m = b"no verdict: the monitor crashed outside a case\n";
            write(2, m.as_ptr().cast(), m.len());
            _exit(2)
        };
        let name = std::slice::from_raw_parts(name, len);
        let mut path = Text { b: [0; 2048], n: 0 };
        path.s(root.as_bytes()).s(b"/evidence/replay/").s(prop.as_bytes()).s(b"-");
        for c in name { path.s(&[if *c == b'/' || *c == b' ' { b'_' } else { *c }]); }
        path.s(b"-").u(index).s(b".json");
        let mut j = Text { b: [0; 2048], n: 0 };
        j.s(b"{\"property\": \"").s(prop.as_bytes()).s(b"\", \"stream\": \"").s(name).s(b"\", \"seed\": ").u(*seed)
            .s(b", \"index\": ").u(index).s(b", \"tier\": \"").s(tier.as_bytes())
            .s(b"\", \"signature\": \"crash\", \"detail\": \"the process died of signal ").u(sig as u64).s(b"\"}\n");
        let fd = open(path.b.as_ptr().cast(), 0o1101, 0o644 as std::ffi::c_uint); // create, truncate, write
        if fd >= 0 { write(fd, j.b.as_ptr().cast(), j.n); }
        let mut t = Text { b: [0; 2048], n: 0 };
        t.s(b"VIOLATION property=").s(prop.as_bytes()).s(b" replay=").s(&path.b[..path.n]).s(b"\n  crash [").s(name).s(b" #").u(index)
            .s(b"]: the process died of signal ").u(sig as u64).s(b" in this case\n");
        write(1, t.b.as_ptr().cast(), t.n);
        _exit(1)
    }
}
fn watch_crashes(prop: &str, tier: &'static str, seed: u64, root: &str) {
    let _ = RUN.set((prop.into(), tier, seed, root.into()));
    let _ = std::fs::create_dir_all(format!("{root}/evidence/replay"));
    let a = SigAction { handler: crashed as extern "C" fn(i32) as usize, mask: [0; 16], flags: 0x0800_0000 | 0x4000_0000, restorer: 0 }; // on the signal stack, nested
    for sig in [4, 6, 7, 8, 11] { unsafe { sigaction(sig, &a, std::ptr::null_mut()); } }
    // a sanitizer reserves more address space than this
    if std::env::var_os("VERIF_SANITIZED").is_none() { unsafe { setrlimit(9, &[MEMORY_LIMIT; 2]); } }
}

struct Done<'a>(&'a AtomicU64);
impl Drop for Done<'_> { fn drop(&mut self) { self.0.fetch_sub(1, Ordering::Release); } }
fn my_cpu_clock() -> i32 { let mut c = 0; unsafe { pthread_getcpuclockid(pthread_self(), &mut c); } c }
fn cpu_seconds(clock: i32) -> f64 {
    let mut t = TimeSpec { sec: 0, nsec: 0 };
    if unsafe { clock_gettime(clock, &mut t) } != 0 { return 0.0; }
    t.sec as f64 + t.nsec as f64 * 1e-9
}
/// Processor time one case may use before it counts as stuck. An ordinary case takes microseconds to
/// milliseconds; processor time, unlike elapsed time, does not depend on the load of the machine.
const STUCK_CPU_SECONDS: f64 = 60.0;

/// distinct cases remembered per worker and stream; beyond it the reported number is a lower bound
const DISTINCT_CAP: usize = 500_000;

#[derive(Clone, Debug)]
pub struct Violation {
    /// stable signature of what failed (used for known findings and for deduplication)
    pub sig: String,
    pub detail: String,
}
pub type Verdict = Result<(), Violation>;

pub fn violation<T>(sig: impl Into<String>, detail: impl Into<String>) -> Result<T, Violation> {
    Err(Violation { sig: sig.into(), detail: detail.into() })
}

/// What the monitors observed. One per worker thread, merged at the end.
#[derive(Default)]
pub struct Obs {
    pub counters: BTreeMap<String, u64>,
    pub maxima: BTreeMap<String, f64>,
    pub distinct: HashSet<u64>,
    pub classes: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub evaluations: u64,
    sample_cap: usize,
    fp: u64,
    nontrivial: bool,
}
impl Obs {
    pub fn count(&mut self, k: &str, n: u64) {
        if let Some(x) = self.counters.get_mut(k) { *x += n } else { self.counters.insert(k.to_string(), n); }
    }
    pub fn max(&mut self, k: &str, v: f64) {
        if let Some(x) = self.maxima.get_mut(k) { if v > *x { *x = v } } else { self.maxima.insert(k.to_string(), v); }
    }
    /// abstract situation this case put the code in
    pub fn class(&mut self, k: impl Into<String>) {
        *self.classes.entry(k.into()).or_insert(0) += 1;
    }
    /// fold observed data into the fingerprint of the current case
    pub fn fp(&mut self, x: impl Hash) {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        self.fp.hash(&mut h);
        x.hash(&mut h);
        self.fp = h.finish();
    }
    pub fn fpf(&mut self, xs: &[f32]) {
        for x in xs { self.fp(x.to_bits()); }
    }
    /// the oracle actually decided something about this case
    pub fn nontrivial(&mut self) { self.nontrivial = true; }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < self.sample_cap { self.samples.push(f()); }
    }
    fn merge(&mut self, o: Obs) {
        for (k, v) in o.counters { *self.counters.entry(k).or_insert(0) += v; }
        for (k, v) in o.maxima { let e = self.maxima.entry(k).or_insert(v); if v > *e { *e = v } }
        for (k, v) in o.classes { *self.classes.entry(k).or_insert(0) += v; }
        self.distinct.extend(o.distinct);
        for s in o.samples { if self.samples.len() < 12 { self.samples.push(s); } }
        self.evaluations += o.evaluations;
    }
}

pub struct Ctx {
    pub prop: String,
    pub seed: u64,
    pub thorough: bool,
    pub root: String,
    pub known: Vec<(String, String)>,
    pub replay: Option<(String, u64)>,
    pub obs: Mutex<Obs>,
    pub violations: Mutex<BTreeMap<(String, u64), Violation>>,
    pub known_hit: Mutex<BTreeMap<String, String>>,
    pub streams: Mutex<Vec<(String, u64)>>,
    pub started: Instant,
}

impl Ctx {
    pub fn new(prop: &str, tier: &str, root: &str, replay: Option<(u64, String, u64)>) -> Ctx {
        let mut seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1u64);
        if let Some((s, _, _)) = &replay { seed = *s; }
        watch_crashes(prop, if tier == "thorough" { "thorough" } else { "quick" }, seed, root);
        let mut known = vec![];
        if let Ok(s) = std::fs::read_to_string(format!("{root}/known-findings.txt")) {
            for l in s.lines() {
                if let Some(rest) = l.strip_prefix("finding: property=") {
                    if let Some((id, rest)) = rest.split_once(' ') {
                        if id == prop {
                            if let Some(rest) = rest.strip_prefix("sig=") {
                                let sig = rest.split_whitespace().next().unwrap_or("");
                                known.push((sig.to_string(), rest[sig.len()..].trim().to_string()));
                            }
                        }
                    }
                }
            }
        }
        std::panic::set_hook(Box::new(|info| {
            let m = info.payload().downcast_ref::<&str>().map(|s| s.to_string())
                .or_else(|| info.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
            let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            LAST_PANIC.with(|p| *p.borrow_mut() = format!("{m} at {loc}"));
        }));
        Ctx {
            prop: prop.into(), seed, thorough: tier == "thorough", root: root.into(), known,
            // a finding about a whole workload is replayed by running the whole workload
            replay: replay.map(|(_, s, i)| (s, i)).filter(|r| r.1 != u64::MAX),
            obs: Mutex::new(Obs::default()), violations: Default::default(), known_hit: Default::default(),
            streams: Default::default(), started: Instant::now(),
        }
    }
    pub fn scale(&self, quick: u64) -> u64 { if self.thorough { quick * 60 } else { quick * 8 } }

    /// Runs `n` cases of a workload on all cores. The seed of a case does not depend on the number
    /// of cores or on the order of execution.
    pub fn stream<F>(&self, name: &str, n: u64, f: F)
    where F: Fn(&mut Rng, &mut Obs, u64) -> Verdict + Sync {
        if let Some((s, _)) = &self.replay { if s != name { return; } }
        self.streams.lock().unwrap().push((name.to_string(), n));
        let sid = { let mut h = std::collections::hash_map::DefaultHasher::new(); name.hash(&mut h); h.finish() };
        let only = self.replay.as_ref().map(|r| r.1);
        let next = AtomicU64::new(0);
        let found = AtomicU64::new(0);
        let threads = if only.is_some() { 1 } else { std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(16) };
        // cases taken at a time; few for short streams of long cases
        let chunk = (n / (threads as u64 * 4)).clamp(1, 256);
        // case in work (index + 1, 0 when idle), cases started, and the processor clock, per worker
        let state: Vec<(AtomicU64, AtomicU64, std::sync::atomic::AtomicI32)> = (0..threads).map(|_| Default::default()).collect();
        let running = AtomicU64::new(threads as u64);
        std::thread::scope(|sc| {
            let (state, running) = (&state, &running);
            sc.spawn(move || {
                let mut seen = vec![(0u64, 0.0f64); threads];
                let mut ticks = 0u64;
                while running.load(Ordering::Acquire) > 0 {
                    std::thread::sleep(std::time::Duration::from_millis(10));
                    ticks += 1;
                    if ticks % 100 != 0 { continue; }
                    for (t, s) in state.iter().enumerate() {
                        let (case, started) = (s.0.load(Ordering::Acquire), s.1.load(Ordering::Acquire));
                        if case == 0 { continue; }
                        let cpu = cpu_seconds(s.2.load(Ordering::Acquire));
                        if seen[t].0 != started { seen[t] = (started, cpu); }
                        else if cpu - seen[t].1 > STUCK_CPU_SECONDS { self.stuck(name, case - 1, n); }
                    }
                }
            });
            for t in 0..threads {
                let (next, found, f) = (&next, &found, &f);
                std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(sc, move || {
                    let _done = Done(running);
                    state[t].2.store(my_cpu_clock(), Ordering::Release);
                    let mut obs = Obs { sample_cap: if t == 0 { 4 } else { 0 }, ..Default::default() };
                    loop {
                        let start = next.fetch_add(chunk, Ordering::Relaxed);
                        if start >= n || found.load(Ordering::Relaxed) >= 20 { break; }
                        for i in start..(start + chunk).min(n) {
                            if only.is_some_and(|o| o != i) { continue; }
                            let mut rng = Rng::new(self.seed, sid, i);
                            obs.fp = 0;
                            obs.nontrivial = false;
                            state[t].1.fetch_add(1, Ordering::Release);
                            state[t].0.store(i + 1, Ordering::Release);
                            CASE.with(|c| c.set((name.as_ptr(), name.len(), i)));
                            let r = catch_unwind(AssertUnwindSafe(|| f(&mut rng, &mut obs, i)));
                            obs.evaluations += 1;
                            if obs.nontrivial && obs.distinct.len() < DISTINCT_CAP { let x = obs.fp; obs.distinct.insert(x); }
                            let v = match r {
                                Ok(Ok(())) => continue,
                                Ok(Err(v)) => v,
                                Err(_) => {
                                    let m = LAST_PANIC.with(|p| p.borrow().clone());
                                    if m.contains("harness-internal") {
                                        eprintln!("harness error: {m}");
                                        std::process::exit(2);
                                    }
                                    Violation { sig: format!("{name}/panic"), detail: m }
                                }
                            };
                            if self.report(name, i, v) { found.fetch_add(1, Ordering::Relaxed); }
                        }
                    }
                    state[t].0.store(0, Ordering::Release);
                    CASE.with(|c| c.set((std::ptr::null(), 0, 0)));
                    self.obs.lock().unwrap().merge(obs);
                }).unwrap();
            }
        });
    }

    /// A case that does not end never gives the answer any property speaks of.
    fn stuck(&self, stream: &str, index: u64, n: u64) -> ! {
        let what = format!("case {index} of {n} of `{stream}` used more than {STUCK_CPU_SECONDS} s of processor time without finishing");
        let path = self.write_replay(stream, index, &Violation { sig: "endless".into(), detail: what.clone() });
        println!("VIOLATION property={} replay={}", self.prop, path);
        println!("  endless [{stream} #{index}]: {what}");
        std::process::exit(1);
    }
    fn write_replay(&self, stream: &str, index: u64, v: &Violation) -> String {
        let dir = format!("{}/evidence/replay", self.root);
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{dir}/{}-{}-{}.json", self.prop, stream.replace(['/', ' '], "_"), index);
        let j = serde_json::json!({"property": self.prop, "stream": stream, "seed": self.seed, "index": index,
            "tier": if self.thorough {"thorough"} else {"quick"}, "signature": v.sig, "detail": v.detail});
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap());
        path
    }
    /// A violation of a property of the whole workload (an average, a total).
    pub fn aggregate(&self, name: &str, v: Violation) {
        if self.replay.is_none() { self.report(name, u64::MAX, v); }
    }

    fn report(&self, stream: &str, index: u64, v: Violation) -> bool {
        if let Some((sig, what)) = self.known.iter().find(|k| k.0 == v.sig) {
            self.known_hit.lock().unwrap().entry(sig.clone()).or_insert_with(|| what.clone());
            return false;
        }
        self.violations.lock().unwrap().insert((stream.to_string(), index), v);
        true
    }

    /// Prints the verdict, writes replay files and evidence, and returns the exit code.
    pub fn finish(self, rule: &str, extra: serde_json::Value, assumptions: &[&str]) -> i32 {
        let obs = std::mem::take(&mut *self.obs.lock().unwrap());
        let viol = std::mem::take(&mut *self.violations.lock().unwrap());
        let streams = std::mem::take(&mut *self.streams.lock().unwrap());
        for (sig, what) in std::mem::take(&mut *self.known_hit.lock().unwrap()) {
            println!("KNOWN-FINDING: property={} {sig}: {what}", self.prop);
        }
        let mut seen = HashSet::new();
        let mut code = 0;
        for ((stream, index), v) in &viol {
            code = 1;
            if !seen.insert((stream.clone(), v.sig.clone())) || seen.len() > 5 { continue; }
            let path = self.write_replay(stream, *index, v);
            println!("VIOLATION property={} replay={}", self.prop, path);
            println!("  {} [{} #{}]: {}", v.sig, stream, index, v.detail);
        }
        if self.replay.is_some() {
            if code == 0 { println!("replay: the case passes on this tree"); }
            return code;
        }
        if code == 0 && (obs.evaluations == 0 || obs.distinct.len() < 2) {
            eprintln!("harness error: nothing was observed");
            return 2;
        }
        let mut cov = serde_json::json!({
            "evaluations": obs.evaluations,
            "distinct_nontrivial": obs.distinct.len(),
            "rule": rule,
            "samples": obs.samples,
            "streams": streams.iter().map(|s| serde_json::json!({"name": s.0, "cases": s.1})).collect::<Vec<_>>(),
            "monitor_counters": obs.counters,
            "monitor_maxima": obs.maxima,
            "situation_classes_seen": obs.classes.len(),
            "situation_classes": obs.classes.iter().take(400).collect::<BTreeMap<_, _>>(),
        });
        if let serde_json::Value::Object(m) = extra { for (k, v) in m { cov[k] = v; } }
        let ev = serde_json::json!({
            "property": self.prop, "tier": if self.thorough {"thorough"} else {"quick"}, "seed": self.seed,
            "level": "exploration", "coverage": cov, "assumptions": assumptions,
            "wall_s": self.started.elapsed().as_secs_f64(), "violations": viol.len(),
        });
        let dir = format!("{}/evidence", self.root);
        let _ = std::fs::create_dir_all(&dir);
        let file = std::env::var("VERIF_EVIDENCE_FILE").unwrap_or(format!("{dir}/{}.json", self.prop));
        if let Err(e) = std::fs::write(file, serde_json::to_string_pretty(&ev).unwrap()) {
            eprintln!("harness error: evidence not written: {e}");
            return 2;
        }
        println!("{}: {} cases, {} distinct non-trivial, {} situation classes, {} violations, {:.1}s", self.prop,
            obs.evaluations, obs.distinct.len(), obs.classes.len(), viol.len(), self.started.elapsed().as_secs_f64());
        code
    }
}
