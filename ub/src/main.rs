//! C34: memory safety and freedom from data races, decided by tools that watch every access.
//!
//! The program has two roles: `work` runs scenes (under Miri or built with a sanitizer), and the driver
//! runs many workers, reads what their tool reports and writes the verdict and the evidence.
#![allow(dead_code)]
#[path = "../../harness/src/fw.rs"]
mod fw;
#[path = "../../harness/src/gen.rs"]
mod gen;
#[path = "../../harness/src/geo.rs"]
mod geo;
#[path = "../../harness/src/rng.rs"]
mod rng;
#[path = "../../harness/src/rules.rs"]
mod rules;
#[path = "../../variants/src/scene2d.rs"]
mod scene2d;
#[path = "../../variants/src/scene3d.rs"]
mod scene3d;
#[path = "../../variants/src/scenetiles.rs"]
mod scenetiles;
#[path = "../../variants/src/answers.rs"]
mod answers;
mod work;
pub use answers::*;
use fw::*;
use rng::Rng;
use std::io::{BufRead, Read, Write};
use std::process::{Command, Stdio};

fn stream_id(group: &str) -> u64 { group.bytes().fold(7, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3)) }
/// work GROUP SEED FROM N: names each scene before running it, so that a report can be placed
fn work(args: &[String]) {
    std::panic::set_hook(Box::new(|_| {}));
    let group = &args[0];
    let (seed, from, n): (u64, u64, u64) = (args[1].parse().unwrap(), args[2].parse().unwrap(), args[3].parse().unwrap());
    let mut out = std::io::stdout().lock();
    let (mut answers, mut panics, mut digest) = (0u64, 0u64, 0u64);
    for i in from..from + n {
        let _ = writeln!(out, "@{i}");
        let mut r = Rng::new(seed, stream_id(group), i);
        let mut a = Answers::default();
        if std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| work::scene(group, &mut r, &mut a))).is_err() { panics += 1; }
        answers += a.v.len() as u64;
        digest = digest.rotate_left(7) ^ a.hash();
        if group == "shared" { let _ = writeln!(out, "order {}", work::TURN.load(std::sync::atomic::Ordering::Relaxed)); }
    }
    let _ = writeln!(out, "done {answers} {panics} {digest}");
}

struct Report { answers: u64, panics: u64, digest: u64, orders: Vec<u64>, at: String, found: Option<String> }
fn give_up(what: String) -> ! { eprintln!("harness error: {what}"); std::process::exit(2) }
const PATIENCE: u64 = 700;
/// what a watching tool reports when the program broke a rule of the language
const FINDINGS: [&str; 6] = ["Undefined Behavior", "Data race", "Sanitizer: ", "the program aborted execution", "deadlocked", "accessed uninit"];
fn run(tool: &str, root: &str, group: &str, seed: u64, from: u64, n: u64) -> Report {
    let mut c;
    if tool == "miri" {
        c = Command::new("cargo");
        c.args(["+nightly", "miri", "run", "--locked", "--offline", "-q", "--manifest-path", &format!("{root}/ub/Cargo.toml"), "--target-dir", &format!("{root}/ub/target-miri"), "--"]);
        c.env("MIRIFLAGS", format!("-Zmiri-disable-isolation -Zmiri-tree-borrows -Zmiri-ignore-leaks -Zmiri-preemption-rate=0.03 -Zmiri-seed={}", (seed.wrapping_mul(1_000_003) ^ from) & 0xffff_ffff));
    } else { c = Command::new(format!("{root}/ub/target-{tool}/x86_64-unknown-linux-gnu/watched/auburn-ub")); }
    c.env("ASAN_OPTIONS", "detect_leaks=0:exitcode=77").env("TSAN_OPTIONS", "exitcode=77:halt_on_error=1").env("MSAN_OPTIONS", "exitcode=77");
    let mut c = c.args(["work", group, &seed.to_string(), &from.to_string(), &n.to_string()])
        .stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().unwrap_or_else(|e| give_up(format!("{tool}: {e}")));
    let (out, mut err) = (c.stdout.take().unwrap(), c.stderr.take().unwrap());
    let errors = std::thread::spawn(move || { let mut b = vec![]; let _ = err.by_ref().take(1 << 20).read_to_end(&mut b); let _ = std::io::copy(&mut err, &mut std::io::sink()); String::from_utf8_lossy(&b).into_owned() });
    let lines = std::thread::spawn(move || {
        let (mut at, mut done, mut orders) = (String::new(), None, vec![]);
        for l in std::io::BufReader::new(out).lines().map_while(Result::ok) {
            if let Some(x) = l.strip_prefix('@') { at = x.into() } else if let Some(x) = l.strip_prefix("order ") { orders.extend(x.parse::<u64>()) } else if let Some(x) = l.strip_prefix("done ") { done = Some(x.to_string()) }
        }
        (at, done, orders)
    });
    let started = std::time::Instant::now();
    let status = loop {
        match c.try_wait() { Ok(Some(s)) => break s, Ok(None) => {} Err(e) => give_up(e.to_string()) }
        if started.elapsed().as_secs() > PATIENCE { let _ = c.kill(); let _ = c.wait(); give_up(format!("{group} under {tool} did not finish in {PATIENCE} s")) }
        std::thread::sleep(std::time::Duration::from_millis(3));
    };
    let ((at, done, orders), errors) = (lines.join().unwrap(), errors.join().unwrap());
    use std::os::unix::process::ExitStatusExt;
    let died = matches!(status.signal(), Some(4 | 6 | 7 | 8 | 11));
    let line = errors.lines().find(|l| FINDINGS.iter().any(|f| l.contains(f)));
    let found = match line {
        Some(l) if !at.is_empty() => Some(format!("{}; {}", l.trim(), errors.lines().skip_while(|m| m != &l).filter(|m| m.contains("/repo/") || m.contains("src/")).take(3).map(|m| m.trim()).collect::<Vec<_>>().join(", "))),
        None if died && !at.is_empty() => Some(format!("the process died of signal {}", status.signal().unwrap())),
        _ => None,
    };
    if found.is_some() { return Report { answers: 0, panics: 0, digest: 0, orders, at, found } }
    let d: Vec<u64> = done.iter().flat_map(|d| d.split(' ')).filter_map(|x| x.parse().ok()).collect();
    if !status.success() || d.len() != 3 { give_up(format!("{group} under {tool} ended with {status} at scene {at}: {}", errors.chars().take(2000).collect::<String>())) }
    Report { answers: d[0], panics: d[1], digest: d[2], orders, at, found: None }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).map(|s| s.as_str()) == Some("work") { return work(&args[2..]); }
    let (prop, tier) = (args[1].clone(), args[2].clone());
    let root = std::env::var("VERIF_ROOT").unwrap_or("/verif".into());
    let replay = if args.len() > 5 { Some((args[3].parse().unwrap(), args[4].clone(), args[5].parse().unwrap())) } else { None };
    let ctx = Ctx::new(&prop, &tier, &root, replay);
    // scenes per process and processes, of the interpreter; a thorough run has more processes
    let plan = |tool: &str, group: &str| -> (u64, u64) {
        let miri = match group { "queries" => 40, "tilemap" => 12, "shapes and helpers" => 60, "3d" => 120, "hostile" => 60, _ => 8 };
        let native = match group { "queries" => 60_000, "tilemap" => 8_000, "shapes and helpers" => 40_000, "3d" => 100_000, "hostile" => 60_000, _ => 600 };
        let k = if ctx.thorough { 12 } else { 1 };
        if tool == "miri" { (miri, if group == "shared" { 24 * k } else { 8 * k }) } else { (native, 8 * k) }
    };
    for tool in ["miri", "asan", "tsan", "msan"] {
        for group in work::GROUPS {
            if tool == "tsan" && group != "shared" { continue; }
            if tool == "msan" && group == "shared" { continue; }
            let (size, n) = plan(tool, group);
            let orders = std::sync::Mutex::new(std::collections::HashSet::new());
            ctx.stream(&format!("{group} under {tool}"), n, |_, o, i| {
                let rep = run(tool, &ctx.root, group, ctx.seed, i * size, size);
                o.fp((tool, group, rep.digest, &rep.orders));
                o.nontrivial();
                o.count(&format!("scenes watched by {tool}"), size);
                o.count(&format!("answers given under {tool}"), rep.answers);
                o.count("scenes that panicked (see C16)", rep.panics);
                o.class(format!("{group} under {tool}"));
                orders.lock().unwrap().extend(rep.orders.iter().copied());
                if let Some(f) = rep.found { return violation(format!("{tool}/{group}"), format!("{group} scene {} of seed {}: {f}", rep.at, ctx.seed)); }
                o.sample(|| format!("{size} scenes of {group} under {tool}: nothing reported, {} answers", rep.answers));
                Ok(())
            });
            if group == "shared" { ctx.obs.lock().unwrap().count(&format!("distinct interleavings seen by {tool}"), orders.lock().unwrap().len() as u64); }
        }
    }
    std::process::exit(ctx.finish(&rules::rule(&prop), serde_json::json!({"tools": ["miri (tree borrows)", "address sanitizer", "thread sanitizer (instrumented standard library)", "memory sanitizer (instrumented standard library)"]}), rules::assumptions(&prop)));
}
