//! C18: queries write nothing, and depend on nothing but their arguments.
//!
//! A *digest* is a hash of the answer bits of one generated scene. Digests are compared between
//! repetitions, histories, threads, processes and builds (logging feature off and on, at every level).
use crate::fw::*;
use crate::rng::Rng;
use std::hash::{Hash, Hasher};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Barrier;

/// stable across builds, unlike the hasher of the standard library promises to be
#[derive(Clone, Copy)]
pub struct D(pub u64);
impl D {
    pub fn new() -> D { D(0xcbf29ce484222325) }
    pub fn u(&mut self, x: u64) { self.0 = (self.0 ^ x).wrapping_mul(0x100000001b3).rotate_left(23) ^ (x >> 32); }
    /// all NaNs are one value: their payload and sign carry no meaning
    pub fn f(&mut self, x: f32) { self.u(if x.is_nan() { 0x7fc00000 } else { x.to_bits() as u64 }) }
    pub fn b(&mut self, x: bool) { self.u(x as u64) }
    pub fn v(&mut self, x: auburn::Vec2) { self.f(x.x); self.f(x.y) }
    pub fn ov(&mut self, x: Option<auburn::Vec2>) { self.b(x.is_some()); if let Some(x) = x { self.v(x) } }
}
pub const PANICKED: u64 = 0xdead;

/// the digest of scene `i`; a panic is C16's business and only has to be repeatable here
pub fn digest_of(scene: &dyn Fn(&mut Rng, &mut D), seed: u64, i: u64) -> u64 {
    let mut r = Rng::new(seed, 0x51, i);
    let mut d = D::new();
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| scene(&mut r, &mut d))) { Ok(()) => d.0, Err(_) => {
        if last_panic().contains("harness-internal") { eprintln!("harness error: {}", last_panic()); std::process::exit(2); }
        PANICKED } }
}
fn order(n: u64, how: &str, seed: u64) -> Vec<u64> {
    let mut v: Vec<u64> = (0..n).collect();
    match how {
        "forward" => {}
        "backward" => v.reverse(),
        "twice" => v = (0..n).flat_map(|i| [i, i]).collect(),
        _ => { let mut r = Rng::new(seed, 0x52, 9); for i in (1..v.len()).rev() { v.swap(i, r.below(i + 1)) } }
    }
    v
}

// ---------------------------------------------------------------- child processes
/// Runs scenes in the given order, printing nothing, and leaves the digests in a file.
pub fn child(scene: &dyn Fn(&mut Rng, &mut D), args: &[String]) {
    let (seed, n, how, level, out) = (args[0].parse().unwrap(), args[1].parse().unwrap(), args[2].as_str(), args[3].as_str(), &args[4]);
    std::panic::set_hook(Box::new(|_| {}));
    let records = install_logger(level);
    let mut v = vec![0u64; n as usize];
    if let Some(part) = how.strip_prefix("haul") {
        // the scenes, a long list of others, and the scenes once more
        let (part, len): (u64, u64) = part.split_once('x').map(|(a, b)| (a.parse().unwrap(), b.parse().unwrap())).unwrap();
        for i in 0..n { v[i as usize] = digest_of(scene, seed, i); }
        for i in 0..len { digest_of(scene, seed, HAUL_BASE + part * len + i); }
        for i in 0..n { let x = digest_of(scene, seed, i); if x != v[i as usize] { v[i as usize] = !x; } }
    } else { for i in order(n, how, seed) { v[i as usize] = digest_of(scene, seed, i); } }
    let mut bytes: Vec<u8> = v.iter().flat_map(|x| x.to_le_bytes()).collect();
    bytes.extend(records.load(Ordering::Relaxed).to_le_bytes());
    std::fs::write(out, bytes).unwrap();
}
const HAUL_BASE: u64 = 1 << 40;
static RECORDS: AtomicU64 = AtomicU64::new(0);
#[cfg(not(feature = "logging"))]
fn install_logger(level: &str) -> &'static AtomicU64 {
    if level != "none" { eprintln!("harness error: this build has no logging"); std::process::exit(2); }
    &RECORDS
}
#[cfg(feature = "logging")]
fn install_logger(level: &str) -> &'static AtomicU64 {
    struct L;
    static TEXT: AtomicU64 = AtomicU64::new(0);
    impl log::Log for L {
        fn enabled(&self, _: &log::Metadata) -> bool { true }
        fn log(&self, r: &log::Record) {
            RECORDS.fetch_add(1, Ordering::Relaxed);
            TEXT.fetch_add(format!("{}", r.args()).len() as u64, Ordering::Relaxed); // evaluate the arguments
        }
        fn flush(&self) {}
    }
    if level != "none" {
        log::set_logger(&L).unwrap();
        log::set_max_level(level.parse().unwrap());
    }
    &RECORDS
}

struct Scratch(String);
impl Scratch {
    fn new() -> Scratch {
        let p = std::env::temp_dir().join(format!("auburn-c18-{}", std::process::id()));
        std::fs::create_dir_all(&p).unwrap_or_else(|e| { eprintln!("harness error: {e}"); std::process::exit(2) });
        Scratch(p.to_string_lossy().into_owned())
    }
}
impl Drop for Scratch { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); } }

struct Ran { digests: Vec<u64>, records: u64, stdout: Vec<u8>, stderr: Vec<u8>, ok: bool }
fn run_child(bin: &str, mode: &str, seed: u64, n: u64, how: &str, level: &str, dir: &str) -> Ran {
    let out = format!("{dir}/{mode}-{how}-{level}-{}.bin", bin.len());
    let _ = std::fs::remove_file(&out);
    let r = Command::new(bin).args([mode, &seed.to_string(), &n.to_string(), how, level, &out]).stdin(Stdio::null())
        .env("VERIF_ROOT", "/nonexistent").output();
    let r = match r { Ok(r) => r, Err(e) => { eprintln!("harness error: cannot run {bin}: {e}"); std::process::exit(2) } };
    let b = std::fs::read(&out).unwrap_or_default();
    let mut v: Vec<u64> = b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
    let records = v.pop().unwrap_or(0);
    Ran { ok: r.status.success() && v.len() as u64 == n, digests: v, records, stdout: r.stdout, stderr: r.stderr }
}

/// All of C18 for one set of scenes. `log_bin` is the same program built with the logging feature.
pub fn check(ctx: &Ctx, scene: &(dyn Fn(&mut Rng, &mut D) + Sync), child_mode: &str, log_bin: Option<&str>, n: u64) {
    let tag = child_mode.trim_start_matches("child-");
    // 1. repetition with other queries in between, on this thread
    ctx.stream(&format!("{tag} repetition"), n, |r, o, i| {
        let first = digest_of(scene, ctx.seed, i);
        let others = r.below(6);
        for _ in 0..others { let k = r.u64() >> 40; digest_of(scene, ctx.seed, k + n); }
        let again = digest_of(scene, ctx.seed, i);
        o.fp(first);
        o.nontrivial();
        o.count("answers repeated", 1);
        if first == PANICKED { o.count("panicked (see C16)", 1); }
        o.class(format!("{tag} after {others} others"));
        o.sample(|| format!("scene {i}: digest {first:016x}, repeated after {others} other queries"));
        if first != again { return violation("not-repeatable", format!("{tag} scene {i} gave digest {first:016x}, and {again:016x} after {others} other queries")); }
        Ok(())
    });
    // 2. concurrent callers against a lone one
    let rounds = (n / 4000).max(4);
    ctx.stream(&format!("{tag} concurrent"), rounds, |r, o, round| {
        const M: usize = 256;
        const T: usize = 4;
        let base = (round + 1) * 1_000_000;
        let want: Vec<u64> = (0..M as u64).map(|i| digest_of(scene, ctx.seed, base + i)).collect();
        let barrier = Barrier::new(T);
        let orders: Vec<Vec<usize>> = (0..T).map(|_| { let mut v: Vec<usize> = (0..M).collect(); for i in (1..M).rev() { v.swap(i, r.below(i + 1)) } v }).collect();
        let clock = AtomicU64::new(0);
        let got: Vec<(Vec<u64>, Vec<u64>)> = std::thread::scope(|s| {
            let hs: Vec<_> = orders.iter().map(|ord| { let (b, clock, want) = (&barrier, &clock, &want); s.spawn(move || {
                let mut v = vec![0; want.len()];
                let mut stamps = vec![];
                b.wait();
                for k in ord { v[*k] = digest_of(scene, ctx.seed, base + *k as u64); stamps.push(clock.fetch_add(1, Ordering::Relaxed)); }
                (v, stamps)
            }) }).collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        o.nontrivial();
        for (t, (v, stamps)) in got.iter().enumerate() {
            o.count("answers given concurrently", v.len() as u64);
            o.count("switches between callers observed", stamps.windows(2).filter(|w| w[1] != w[0] + 1).count() as u64);
            o.fp(stamps);
            if let Some(k) = (0..M).find(|k| v[*k] != want[*k]) {
                return violation("concurrent", format!("{tag} scene {} on thread {t} of {T} gave {:016x}, alone {:016x}", base + k as u64, v[k], want[k]));
            }
        }
        o.class(format!("{tag} concurrent"));
        Ok(())
    });
    if ctx.replay.as_ref().is_some_and(|r| !r.0.starts_with(&format!("{tag} process"))) { return; }
    // 3. fresh processes: nothing printed, same answers whatever came before, with any logging
    let dir = Scratch::new();
    let me = std::env::current_exe().unwrap().to_string_lossy().into_owned();
    let (m, mt) = (n.min(60_000), (n / 5).min(12_000));
    let here: Vec<u64> = (0..m).map(|i| digest_of(scene, ctx.seed, i)).collect();
    let mut runs: Vec<(String, &str, &str, u64)> = vec![];
    for how in ["forward", "backward", "twice", "shuffled"] { runs.push((me.clone(), how, "none", m)); }
    if let Some(b) = log_bin {
        runs.push((b.into(), "forward", "none", m));
        for l in ["off", "error", "warn", "info", "debug", "trace"] { runs.push((b.into(), if l == "trace" { "shuffled" } else { "forward" }, l, if l == "trace" || l == "debug" || l == "info" { mt } else { m })); }
    }
    let runs = &runs;
    let dir_ = &dir.0;
    let here = &here;
    ctx.stream(&format!("{tag} process"), runs.len() as u64, |_, o, i| {
        let (bin, how, level, k) = &runs[i as usize];
        let what = format!("{tag}, {} build, log level {level}, {how} order", if *bin == me { "plain" } else { "logging" });
        let ran = run_child(bin, child_mode, ctx.seed, *k, how, level, dir_);
        for (name, text) in [("stdout", &ran.stdout), ("stderr", &ran.stderr)] {
            if !text.is_empty() && !text.starts_with(b"harness error") {
                return violation(format!("prints/{name}"), format!("{what}: {} bytes on {name} during {k} scenes, starting with {:?}", text.len(), String::from_utf8_lossy(&text[..text.len().min(160)])));
            }
        }
        if !ran.ok { eprintln!("harness error: {what}: child failed: {}", String::from_utf8_lossy(&ran.stderr)); std::process::exit(2); }
        let d = { let mut h = std::collections::hash_map::DefaultHasher::new(); ran.digests.hash(&mut h); h.finish() };
        o.fp((i, d));
        o.nontrivial();
        o.count("silent child processes", 1);
        o.count("answers compared across processes", *k);
        o.count(&format!("log records at level {level}"), ran.records);
        o.class(what.clone());
        if let Some(j) = (0..*k as usize).find(|j| ran.digests[*j] != here[*j]) {
            return violation(if level == &"none" { "history" } else { "logging" }, format!("{what}: scene {j} gave digest {:016x}, in the parent process {:016x}", ran.digests[j], here[j]));
        }
        Ok(())
    });
    // 4. long-lived processes: what is rarely reached or needs a long history to show
    const PARTS: u64 = 8;
    let len = n * 10 / 3;
    ctx.stream(&format!("{tag} process haul"), 1, |_, o, i| {
        let k = 2000.min(n);
        let rans: Vec<Ran> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..PARTS).map(|p| { let me = &me; s.spawn(move || run_child(me, child_mode, ctx.seed, k, &format!("haul{p}x{len}"), "none", dir_)) }).collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        for (p, ran) in rans.iter().enumerate() {
            let what = format!("{tag}, long-lived process {p}");
            for (name, text) in [("stdout", &ran.stdout), ("stderr", &ran.stderr)] {
                if !text.is_empty() && !text.starts_with(b"harness error") {
                    return violation(format!("prints/{name}"), format!("{what}: {} bytes on {name} during {len} scenes, starting with {:?}", text.len(), String::from_utf8_lossy(&text[..text.len().min(160)])));
                }
            }
            if !ran.ok { eprintln!("harness error: {what}: child failed: {}", String::from_utf8_lossy(&ran.stderr)); std::process::exit(2); }
            if let Some(j) = (0..k as usize).find(|j| ran.digests[*j] != here[*j]) {
                return violation("history", format!("{what}: scene {j} gave digest {:016x} before and after {len} other scenes, in the parent process {:016x}", ran.digests[j], here[j]));
            }
            o.fp((i, p));
            o.count("scenes run in silent long-lived processes", len);
            o.count("answers compared before and after a long history", k);
        }
        o.nontrivial();
        o.class(format!("{tag} long-lived processes"));
        Ok(())
    });
    if log_bin.is_some() && ctx.replay.is_none() && ctx.violations.lock().unwrap().is_empty() {
        ctx.obs.lock().unwrap().max("log level builds compared", 7.0);
    }
}
