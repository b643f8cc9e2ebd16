//! Monitors for publishers, approximate equality, interpolation and squaring.
use crate::fw::*;
use crate::rng::Rng;
use auburn::utils::approx::Approx;
use auburn::utils::publisher::{CallbackPublisher, HashsetLedger, Ledger, Publisher};
use auburn::{Lerp, Square, Vec2, Vec3};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};

/// Event that cannot be copied and whose drops are counted.
struct Token { id: u64, drops: Arc<AtomicU64> }
impl Drop for Token { fn drop(&mut self) { self.drops.fetch_add(1, Ordering::SeqCst); } }
#[derive(Hash, PartialEq, Eq, Clone, Debug, PartialOrd, Ord)]
struct Named { name: String, n: i32 }

/// an event type whose hash says little
#[derive(PartialEq, Eq, Debug)]
struct Rough(u64);
impl std::hash::Hash for Rough { fn hash<H: std::hash::Hasher>(&self, h: &mut H) { (self.0 / 4).hash(h) } }

#[derive(PartialEq, Eq, Hash, Debug, Clone)]
struct Nothing;
/// an event type whose hash says nothing
#[derive(PartialEq, Eq, Debug, Clone)]
struct Same(usize);
impl std::hash::Hash for Same { fn hash<H: std::hash::Hasher>(&self, _: &mut H) {} }

/// Events of one type through a ledger and a callback publisher.
fn held<E: 'static>(r: &mut Rng, o: &mut Obs, kind: &str, make: fn(&mut Rng) -> E, text: fn(&E) -> String) -> Verdict {
    let n = if r.chance(0.05) { 300 } else { r.below(12) };
    let mut l: Ledger<E> = Ledger::default();
    let log: Arc<Mutex<Vec<(usize, String)>>> = Default::default();
    let mut cb: CallbackPublisher<E> = CallbackPublisher::new();
    let subs = r.below(4);
    for k in 0..subs { let log = log.clone(); cb.attach(move |e| log.lock().unwrap().push((k, text(e)))); }
    let (mut want, mut due) = (vec![], vec![]);
    for _ in 0..n {
        let (e, seed) = (r.u64(), r.u64());
        let twin = |x: u64| make(&mut Rng::new(seed, e, x));
        want.push(text(&twin(0)));
        l.notify(twin(0));
        for k in 0..subs { due.push((k, text(&twin(1)))); }
        cb.notify(twin(1));
        if l.events.len() != want.len() { return violation(format!("kind/{kind}"), format!("a ledger of events of kind {kind} holds {} after {} notifications", l.events.len(), want.len())); }
    }
    let got: Vec<String> = l.events.iter().map(text).collect();
    if got != want { return violation(format!("kind/{kind}"), format!("a ledger of events of kind {kind} holds {got:?}, notified {want:?}")); }
    let got = log.lock().unwrap().clone();
    if got != due { return violation(format!("kind/{kind}"), format!("subscribers to events of kind {kind} heard {got:?}, notified {due:?}")); }
    o.fp((kind, &want));
    o.count("notifications checked", 2 * n as u64);
    o.class(format!("kind {kind} x {}", n.min(12)));
    Ok(())
}
/// Events of one type through a hash-set ledger.
fn distinct<E: std::hash::Hash + Eq + Clone + std::fmt::Debug>(r: &mut Rng, o: &mut Obs, kind: &str, make: fn(&mut Rng) -> E) -> Verdict {
    let mut l: HashsetLedger<E> = HashsetLedger::new();
    let mut want: Vec<E> = vec![];
    for _ in 0..r.below(12) {
        let e = make(r);
        l.notify(e.clone());
        if !want.contains(&e) { want.push(e); }
        if l.events.len() != want.len() || !want.iter().all(|e| l.events.contains(e)) { return violation(format!("set of kind/{kind}"), format!("holds {:?}, distinct notified {want:?}", l.events)); }
        o.count("notifications checked", 1);
    }
    o.class(format!("set of kind {kind}: {}", want.len()));
    Ok(())
}

pub fn c25(ctx: &Ctx) {
    ctx.stream("ledger", ctx.scale(60_000), |r, o, _| {
        let drops = Arc::new(AtomicU64::new(0));
        let mut l: Ledger<Token> = if r.chance(0.5) { Ledger::new() } else { Ledger::default() };
        if !l.events.is_empty() { return violation("new", "a new ledger is not empty"); }
        let mut want: Vec<u64> = vec![];
        let n = if r.chance(0.02) { 2000 } else { r.below(60) };
        for _ in 0..n {
            if r.chance(0.05) && !want.is_empty() { let k = r.below(want.len()); want.drain(..k); l.events.drain(..k); } // a consumer takes some
            let id = if r.chance(0.3) { want.last().copied().unwrap_or(0) } else { r.u64() % 50 };
            l.notify(Token { id, drops: drops.clone() });
            want.push(id);
            let got: Vec<u64> = l.events.iter().map(|t| t.id).collect();
            if n <= 60 && got != want || got.len() != want.len() || got.last() != want.last() { return violation("ledger", format!("ledger holds {got:?}, notified {want:?}")); }
            o.count("notifications checked", 1);
        }
        let got: Vec<u64> = l.events.iter().map(|t| t.id).collect();
        if got != want { return violation("ledger", format!("ledger holds {got:?}, notified {want:?}")); }
        o.fp(&want);
        o.nontrivial();
        o.class(format!("ledger {}", want.len().min(60)));
        let before = drops.load(Ordering::SeqCst);
        let kept = l.events.len() as u64;
        drop(l);
        if drops.load(Ordering::SeqCst) - before != kept { return violation("dropped", format!("{} events dropped with a ledger of {kept}", drops.load(Ordering::SeqCst) - before)); }
        o.sample(|| format!("{want:?}"));
        Ok(())
    });
    ctx.stream("hash-set ledger", ctx.scale(60_000), |r, o, _| {
        let mut l: HashsetLedger<Named> = if r.chance(0.5) { HashsetLedger::new() } else { HashsetLedger::default() };
        if !l.events.is_empty() { return violation("new", "a new hash-set ledger is not empty"); }
        let mut want: BTreeSet<Named> = BTreeSet::new();
        for _ in 0..r.below(80) {
            let e = Named { name: ["a", "b", "", "aa"][r.below(4)].to_string(), n: r.int(-4, 4) as i32 };
            if r.chance(0.05) { l.events.remove(&e); want.remove(&e); }
            l.notify(e.clone());
            want.insert(e);
            if l.events.len() != want.len() || !want.iter().all(|e| l.events.contains(e)) { return violation("hashset", format!("holds {:?}, distinct notified {want:?}", l.events)); }
            o.count("notifications checked", 1);
        }
        o.fp(want.iter().collect::<Vec<_>>());
        o.nontrivial();
        o.class(format!("set {}", want.len()));
        Ok(())
    });
    ctx.stream("callbacks", ctx.scale(60_000), |r, o, _| {
        let mut pb: CallbackPublisher<Token> = if r.chance(0.5) { CallbackPublisher::new() } else { CallbackPublisher::default() };
        let log: Arc<Mutex<Vec<(usize, u64)>>> = Default::default();
        let drops = Arc::new(AtomicU64::new(0));
        let mut want: Vec<(usize, u64)> = vec![];
        let mut subs = 0usize;
        let mut sent = 0u64;
        let mut plan = vec![];
        for _ in 0..r.below(30) {
            if r.chance(0.35) {
                let (k, log) = (subs, log.clone());
                pb.attach(move |e: &Token| log.lock().unwrap().push((k, e.id)));
                subs += 1;
                plan.push(u64::MAX);
            } else {
                let id = r.u64() % 20;
                if r.chance(0.2) { // notified from another thread that takes the publisher over for a while
                    let d = drops.clone();
                    pb = std::thread::scope(|s| s.spawn(move || { let mut pb = pb; pb.notify(Token { id, drops: d }); pb }).join().expect("harness-internal"));
                    o.count("notifications from another thread", 1);
                } else { pb.notify(Token { id, drops: drops.clone() }); }
                sent += 1;
                plan.push(id);
                for k in 0..subs { want.push((k, id)); }
            }
            // synchronous: everything has been delivered by now
            let got = log.lock().unwrap().clone();
            if got != want { return violation("callbacks", format!("delivered (subscriber, event) {got:?}, expected {want:?}")); }
            if drops.load(Ordering::SeqCst) != sent { return violation("dropped", format!("{} of {sent} events dropped after notifying", drops.load(Ordering::SeqCst))); }
            o.count("deliveries checked", subs as u64);
        }
        o.fp(&plan);
        o.nontrivial();
        o.class(format!("subscribers {subs} events {sent}"));
        o.sample(|| format!("{want:?}"));
        Ok(())
    });
    ctx.stream("kinds of event", ctx.scale(2_000), |r, o, _| {
        o.nontrivial();
        held(r, o, "unit", |_| (), |_| String::new())?;
        held(r, o, "empty struct", |_| Nothing, |e| format!("{e:?}"))?;
        held(r, o, "byte", |r| r.below(3) as u8, |e| format!("{e}"))?;
        held(r, o, "wide integer", |r| (r.u64() as u128) << 64 | 5, |e| format!("{e}"))?;
        held(r, o, "flag", |r| r.chance(0.5), |e| format!("{e}"))?;
        held(r, o, "number", |r| r.pick(&[0.0f32, -0.0, f32::NAN, f32::INFINITY, 1e-40]), |e| format!("{:x}", e.to_bits()))?;
        held(r, o, "text", |r| "ab".repeat(r.below(4)), |e| e.clone())?;
        held(r, o, "static text", |r| r.pick(&["", "a", "b"]), |e| e.to_string())?;
        held(r, o, "list", |r| (0..r.below(5)).map(|_| r.u64()).collect::<Vec<_>>(), |e| format!("{e:?}"))?;
        held(r, o, "optional", |r| if r.chance(0.5) { None } else { Some(r.below(2)) }, |e| format!("{e:?}"))?;
        held(r, o, "large", |r| [r.u64(); 600], |e| format!("{} {}", e[0], e[599]))?;
        held(r, o, "boxed function", |r| { let k = r.u64(); Box::new(move || k) as Box<dyn Fn() -> u64> }, |e| format!("{}", e()))?;
        held(r, o, "counted reference", |r| std::rc::Rc::new(r.below(5)), |e| format!("{e} {}", std::rc::Rc::strong_count(e)))?;
        held(r, o, "result", |r| if r.chance(0.5) { Ok(r.below(3)) } else { Err("no".to_string()) }, |e: &Result<usize, String>| format!("{e:?}"))?;
        distinct(r, o, "unit", |_| ())?;
        distinct(r, o, "empty struct", |_| Nothing)?;
        distinct(r, o, "byte", |r| r.u64() as u8)?;
        distinct(r, o, "character", |r| r.pick(&['a', 'A', '\0', '\u{e4}']))?;
        distinct(r, o, "text", |r| "ab".repeat(r.below(4)))?;
        distinct(r, o, "pair", |r| (r.int(-2, 2), r.below(3)))?;
        distinct(r, o, "constant hash", |r| Same(r.below(6)))?;
        distinct(r, o, "nested", |r| vec![Some(r.below(2)); r.below(3)])?;
        Ok(())
    });
    // long histories and many subscribers, for bounds and growth steps that short ones never reach
    ctx.stream("long histories", ctx.scale(40), |r, o, i| {
        let n = match i % 4 { 0 => 200_000, 1 => 70_000, _ => r.log(2e3, 2e5) as usize };
        let mut l: Ledger<u64> = Ledger::new();
        let mut s: HashsetLedger<Rough> = HashsetLedger::new();
        let seen: Arc<Mutex<Vec<u64>>> = Default::default();
        let mut cb = CallbackPublisher::<u64>::new();
        { let seen = seen.clone(); cb.attach(move |e| seen.lock().unwrap().push(*e)); }
        let distinct = if r.chance(0.3) { 50 } else { 1 << 40 };
        let mut want = Vec::with_capacity(n);
        let mut set = HashSet::new();
        for k in 0..n {
            let e = r.u64() % distinct;
            want.push(e);
            l.notify(e);
            cb.notify(e);
            if k < 5_000 || distinct == 50 || k % 16 == 0 { s.notify(Rough(e)); set.insert(e); }
            if k % 4099 == 0 {
                if l.events.len() != k + 1 || l.events[0] != want[0] || l.events[k / 2] != want[k / 2] { return violation("ledger/long", format!("after {} notifications the ledger holds {} events", k + 1, l.events.len())); }
                if s.events.len() != set.len() { return violation("hashset/long", format!("{} distinct events notified, {} held", set.len(), s.events.len())); }
            }
        }
        if l.events != want { return violation("ledger/long", format!("ledger differs after {n} notifications")); }
        if *seen.lock().unwrap() != want { return violation("callbacks/long", format!("the subscriber saw {} events, {n} were notified", seen.lock().unwrap().len())); }
        if s.events.len() != set.len() || !s.events.iter().all(|e| set.contains(&e.0)) { return violation("hashset/long", format!("{} distinct events notified, {} held", set.len(), s.events.len())); }
        o.count("notifications checked", 2 * n as u64);
        o.max("longest history", n as f64);
        o.fp(n); o.fp(want[n - 1]);
        o.nontrivial();
        o.class(format!("long history 2^{}", (n as f64).log2() as u32));
        Ok(())
    });
    ctx.stream("many subscribers", ctx.scale(60), |r, o, i| {
        let n = match i % 4 { 0 => 3000, 1 => 300, _ => r.log(10., 3000.) as usize };
        let log: Arc<Mutex<Vec<usize>>> = Default::default();
        let mut cb = CallbackPublisher::<()>::new();
        let step = 1 + r.below(n / 3 + 1);
        for k in 0..n {
            let log = log.clone();
            let twice = Arc::new(move |_: &()| log.lock().unwrap().push(k));
            let again = twice.clone();
            cb.attach(move |e| twice(e));
            if k % 7 == 0 { cb.attach(move |e| again(e)); } // the same subscriber attached twice is called twice
            if k % step == 0 || k + 1 == n { cb.notify(()); }
        }
        let want: Vec<usize> = (0..n).filter(|k| k % step == 0 || k + 1 == n).flat_map(|last| (0..=last).flat_map(|k| std::iter::repeat(k).take(if k % 7 == 0 { 2 } else { 1 }))).collect();
        let got = log.lock().unwrap();
        if *got != want {
            let at = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
            return violation("callbacks/many", format!("{n} subscribers: delivery {at} went to {:?}, {:?} was due ({} deliveries of {})", got.get(at), want.get(at), got.len(), want.len()));
        }
        o.count("deliveries checked", want.len() as u64);
        o.max("most subscribers", n as f64);
        o.fp(n); o.fp(step);
        o.nontrivial();
        o.class(format!("subscribers 2^{}", (n as f64).log2() as u32));
        Ok(())
    });
    // several producers share one publisher behind a mutex
    ctx.stream("shared publishers", ctx.scale(300), |r, o, _| {
        let (threads, each) = (2 + r.below(5), 1 + r.below(60));
        let ledger: Mutex<Ledger<(usize, usize)>> = Default::default();
        let set: Mutex<HashsetLedger<(usize, usize)>> = Default::default();
        let mut cb = CallbackPublisher::<(usize, usize)>::new();
        let seen: Vec<Arc<Mutex<Vec<(usize, usize)>>>> = (0..3).map(|_| Default::default()).collect();
        for s in &seen { let s = s.clone(); cb.attach(move |e| s.lock().unwrap().push(*e)); }
        let cb = Mutex::new(cb);
        let seeds: Vec<u64> = (0..threads).map(|_| r.u64()).collect();
        std::thread::scope(|sc| for (t, seed) in seeds.iter().enumerate() {
            let (ledger, set, cb) = (&ledger, &set, &cb);
            sc.spawn(move || { let mut r = Rng::new(*seed, 0, 0); for i in 0..each {
                ledger.lock().unwrap().notify((t, i));
                if r.chance(0.3) { std::thread::yield_now(); }
                set.lock().unwrap().notify((t, i));
                cb.lock().unwrap().notify((t, i));
                if r.chance(0.02) { std::thread::sleep(std::time::Duration::from_micros(50)); }
            } });
        });
        let check = |n: &str, ev: &[(usize, usize)]| -> Verdict {
            let mut next: BTreeMap<usize, usize> = BTreeMap::new();
            for (t, i) in ev { let e = next.entry(*t).or_insert(0); if *i != *e { return violation(format!("shared/{n}"), format!("{n}: event {i} of thread {t} where {e} was due in {ev:?}")); } *e += 1; }
            if ev.len() != threads * each { return violation(format!("shared/{n}"), format!("{n}: {} of {} events", ev.len(), threads * each)); }
            Ok(())
        };
        let l = ledger.into_inner().unwrap().events;
        check("ledger", &l)?;
        for s in &seen { check("callback", &s.lock().unwrap())?; }
        if *seen[0].lock().unwrap() != *seen[1].lock().unwrap() || *seen[0].lock().unwrap() != *seen[2].lock().unwrap() { return violation("shared/order", "subscribers saw different orders"); }
        let hs = set.into_inner().unwrap().events;
        if hs != l.iter().copied().collect::<HashSet<_>>() { return violation("shared/hashset", "hash-set ledger differs from the ledger"); }
        o.fp(&l);
        o.nontrivial();
        let switches = l.windows(2).filter(|w| w[0].0 != w[1].0).count();
        o.count("producer switches observed", switches as u64);
        o.count("notifications checked", (threads * each * 3) as u64);
        o.class(format!("threads {threads} interleaved {}", (switches as f64 + 1.0).log2() as u32));
        Ok(())
    });
}

fn magnitude(r: &mut Rng) -> f64 { match r.below(6) { 0 => r.log(1e-36, 1e36), 1 => r.log(1e-3, 1e3), 2 => 1.0, 3 => r.int(1, 1000) as f64, 4 => r.log(1e10, 1e15), _ => r.log(0.1, 10.) } }
fn tolerance(r: &mut Rng) -> f32 { match r.below(5) { 0 => 1e-6, 1 => 1e-3, 2 => r.log(1e-6, 1e-4) as f32, 3 => 0.1, _ => r.log(1e-6, 0.5) as f32 } }

/// Decides |a-b| against the tolerance with a margin; None in between.
fn decide(err: f64, lo: f64, hi: f64, tol: f64) -> Option<bool> {
    if err < 0.99 * tol * lo { Some(true) } else if err > 1.01 * tol * hi { Some(false) } else { None }
}
fn check_eq<T: Approx + std::fmt::Debug>(a: &T, b: &T, tol: f32, want: Option<bool>, default_want: Option<bool>, what: &str, o: &mut Obs) -> Verdict {
    let (x, y) = (a.approx_eq_tolerance(b, tol), b.approx_eq_tolerance(a, tol));
    if let Some(w) = want {
        o.count(if w { "pairs to be accepted" } else { "pairs to be rejected" }, 1);
        for (n, got) in [("forward", x), ("reversed", y)] {
            if got != w { return violation(format!("{what}/{}", if w { "rejected" } else { "accepted" }), format!("{what}: approx_eq_tolerance({a:?}, {b:?}, {tol}) {n} is {got}, expected {w}")); }
        }
    } else { o.count("undecided: at the threshold", 1); }
    if let Some(w) = default_want {
        for (n, got) in [("forward", a.approx_eq(b)), ("reversed", b.approx_eq(a))] {
            if got != w { return violation(format!("{what}/default"), format!("{what}: approx_eq({a:?}, {b:?}) {n} is {got}, expected {w} with the default tolerance 1e-6")); }
        }
    }
    for q in [a, b] { if !q.approx_eq(q) || !q.approx_eq_tolerance(q, tol) { return violation(format!("{what}/reflexive"), format!("{what}: {q:?} is not equal to itself")); } }
    Ok(())
}

pub fn c26(ctx: &Ctx) {
    ctx.stream("numbers", ctx.scale(600_000), |r, o, _| {
        let tol = if r.chance(0.1) { r.log(0.5, 4.0) as f32 } else { tolerance(r) };
        let a = (r.sign() * magnitude(r)) as f32;
        let t = if r.chance(0.3) { 1e-6 } else { tol as f64 };
        let b = match r.below(7) {
            0 => 0.0,
            1 => a,
            2 => (r.sign() * magnitude(r)) as f32,
            3 => -a,
            _ => (a as f64 * (1.0 + r.sign() * t * r.pick(&[0.3, 0.8, 0.95, 1.05, 1.3, 3.0, 30.0]))) as f32,
        };
        let (a, b) = if r.chance(0.2) { (r.pick(&[0.0f32, -0.0]), (r.sign() * t * r.log(0.1, 10.)) as f32) } else { (a, b) };
        let (x, y) = (a as f64, b as f64);
        let f = |tol: f64| if x == 0. || y == 0. { let e = (x - y).abs(); if e < 0.99 * tol { Some(true) } else if e > 1.01 * tol { Some(false) } else { None } }
            else { decide((x - y).abs(), x.abs().min(y.abs()), x.abs().max(y.abs()), tol) };
        o.fpf(&[a, b, tol]);
        o.nontrivial();
        let l = |x: f64| if x == 0. { -99 } else { x.abs().log10().floor() as i32 };
        o.class(format!("number 1e{} err 1e{} tol 1e{}", l(x), l((x - y).abs()), l(tol as f64)));
        o.sample(|| format!("{a} {b} {tol}"));
        check_eq(&a, &b, tol, f(tol as f64), f(1e-6), "f32", o)
    });
    ctx.stream("not a number", ctx.scale(30_000), |r, o, _| {
        let n = f32::NAN;
        let (mx, my) = ((r.sign() * magnitude(r)) as f32, (r.sign() * magnitude(r)) as f32);
        let x = r.pick(&[0.0, 1.0, -1.0, n, mx]);
        let y = r.pick(&[0.0, 1.0, -1.0, n, my]);
        let tol = r.pick(&[1e-6, 1.0, 1e30, f32::INFINITY]);
        o.fpf(&[x, y, tol]);
        o.nontrivial();
        let d = |w: &str| violation(format!("nan/{w}"), format!("{w} with NaN accepted; x={x} y={y} tolerance {tol}"));
        if n.approx_eq_tolerance(&x, tol) || x.approx_eq_tolerance(&n, tol) || n.approx_eq(&x) || x.approx_eq(&n) { return d("f32"); }
        for (a, b) in [(Vec2::new(n, x), Vec2::new(x, y)), (Vec2::new(x, n), Vec2::new(x, y)), (Vec2::new(n, n), Vec2::ZERO), (Vec2::new(n, x), Vec2::ZERO), (Vec2::new(x, n), Vec2::new(x, n))] {
            if a.approx_eq_tolerance(&b, tol) || b.approx_eq_tolerance(&a, tol) || a.approx_eq(&b) || b.approx_eq(&a) { return d("Vec2"); }
        }
        for (a, b) in [(Vec3::new(n, x, y), Vec3::new(x, x, y)), (Vec3::new(x, n, y), Vec3::new(x, x, y)), (Vec3::new(x, y, n), Vec3::new(x, y, x)), (Vec3::splat(n), Vec3::ZERO), (Vec3::new(0., 0., n), Vec3::ZERO), (Vec3::new(0., n, 0.), Vec3::ZERO)] {
            if a.approx_eq_tolerance(&b, tol) || b.approx_eq_tolerance(&a, tol) || a.approx_eq(&b) || b.approx_eq(&a) { return d("Vec3"); }
        }
        o.count("NaN pairs rejected", 12);
        o.class(format!("nan {} {}", x.is_nan(), y.is_nan()));
        Ok(())
    });
    ctx.stream("beyond the range", ctx.scale(30_000), |r, o, _| {
        // an infinite value, or two finite ones whose difference is not representable
        let f = |r: &mut Rng| { let k = magnitude(r); (r.sign() * k) as f32 };
        let tol = tolerance(r);
        let (a, b) = match r.below(3) {
            0 => ((r.sign() * f64::INFINITY) as f32, f(r)),
            1 => { let s = r.sign() as f32; (s * f32::INFINITY, -s * f32::INFINITY) }
            _ => { let s = r.sign() as f32; (s * r.range(1.8e38, 3.4e38) as f32, -s * r.range(1.8e38, 3.4e38) as f32) }
        };
        let (a, b) = if r.chance(0.5) { (a, b) } else { (b, a) };
        let (x, y) = (f(r), f(r));
        o.fpf(&[a, b, tol]);
        o.nontrivial();
        let d = |w: &str| violation(format!("range/{w}"), format!("{w}: {a} accepted as {b}, other components {x} and {y}, tolerance {tol}"));
        if a.approx_eq(&b) || a.approx_eq_tolerance(&b, tol) { return d("f32"); }
        for (p, q) in [(Vec2::new(a, x), Vec2::new(b, x)), (Vec2::new(x, a), Vec2::new(x, b)), (Vec2::new(a, x), Vec2::new(b, y))] {
            if p.approx_eq(&q) || p.approx_eq_tolerance(&q, tol) { return d("Vec2"); }
        }
        for (p, q) in [(Vec3::new(a, x, y), Vec3::new(b, x, y)), (Vec3::new(x, a, y), Vec3::new(x, b, y)), (Vec3::new(x, y, a), Vec3::new(x, y, b)), (Vec3::new(a, x, y), Vec3::new(b, y, x))] {
            if p.approx_eq(&q) || p.approx_eq_tolerance(&q, tol) { return d("Vec3"); }
        }
        o.count("pairs beyond the range rejected", 8);
        o.class(format!("range {} {}", a.is_finite(), b.is_finite()));
        Ok(())
    });
    ctx.stream("vectors", ctx.scale(600_000), |r, o, _| {
        let tol = if r.chance(0.1) { r.log(0.5, 4.0) as f32 } else { tolerance(r) };
        let t = if r.chance(0.3) { 1e-6 } else { tol as f64 };
        let m = magnitude(r);
        let dir = |r: &mut Rng, n: usize| { let mut v = [0f64; 3]; loop { for x in v.iter_mut().take(n) { *x = if r.chance(0.2) { 0. } else { r.range(-1., 1.) }; } let l = v.iter().map(|x| x * x).sum::<f64>().sqrt(); if l > 0.1 { for x in &mut v { *x /= l } return v; } } };
        let n = 2 + r.below(2);
        let a = dir(r, n).map(|x| (x * m) as f32);
        let e = dir(r, n).map(|x| x * m * t * r.pick(&[0.0, 0.3, 0.8, 0.95, 1.05, 1.3, 3.0, 30.0]));
        let b: [f32; 3] = match r.below(8) { 0 => [0.; 3], 1 => a, 2 => { let q = dir(r, n); let k = magnitude(r); q.map(|x| (x * k) as f32) } 3 => a.map(|x| -x), _ => std::array::from_fn(|i| (a[i] as f64 + e[i]) as f32) };
        let len = |v: [f32; 3]| v.iter().map(|x| (*x as f64).powi(2)).sum::<f64>().sqrt();
        let err = (0..3).map(|i| (a[i] as f64 - b[i] as f64).powi(2)).sum::<f64>().sqrt();
        let (la, lb) = (len(a), len(b));
        let f = |tol: f64| decide(err, if lb == 0. { la } else { la.min(lb) }, la.max(lb), tol);
        o.fpf(&a); o.fpf(&b); o.fpf(&[tol]);
        o.nontrivial();
        o.class(format!("vec{n} 1e{} err 1e{}", la.log10().floor(), if err == 0. { -99. } else { err.log10().floor() }));
        if n == 2 { check_eq(&Vec2::new(a[0], a[1]), &Vec2::new(b[0], b[1]), tol, f(tol as f64), f(1e-6), "Vec2", o) }
        else { check_eq(&Vec3::from_array(a), &Vec3::from_array(b), tol, f(tol as f64), f(1e-6), "Vec3", o) }
    });
    ctx.stream("assertion macro", ctx.scale(60_000), |r, o, _| {
        let m = magnitude(r);
        let near = |r: &mut Rng, x: f32| match r.below(6) { 0 => x, 1 => -x, 2 => 0.0, 3 => f32::NAN, _ => (x as f64 * (1.0 + r.sign() * 1e-6 * r.pick(&[0.3, 0.9, 1.1, 3.0]))) as f32 };
        let a = [0; 3].map(|_| (r.sign() * m * r.unit()) as f32);
        let b = if r.chance(0.3) { let k = r.below(3); let mut b = a; b[k] = near(r, b[k]); b } else { a.map(|x| near(r, x)) };
        o.fpf(&a); o.fpf(&b);
        o.nontrivial();
        macro_rules! both { ($what:literal, $x:expr, $y:expr) => {{
            let (x, y) = ($x, $y);
            let says = x.approx_eq(&y);
            let passes = std::panic::catch_unwind(|| auburn::assert_approx_eq!(x, y)).is_ok();
            if says != passes { return violation(concat!("assert/", $what), format!("approx_eq({x:?}, {y:?}) = {says}, assert_approx_eq! {}", if passes { "passes" } else { "panics" })); }
            o.count(if passes { "assertions that passed" } else { "assertions that failed" }, 1);
        }} }
        both!("f32", a[0], b[0]);
        both!("Vec2", Vec2::new(a[0], a[1]), Vec2::new(b[0], b[1]));
        both!("Vec3", Vec3::from_array(a), Vec3::from_array(b));
        o.class(format!("assert {} {}", a[0].approx_eq(&b[0]), Vec3::from_array(a).approx_eq(&Vec3::from_array(b))));
        Ok(())
    });
    ctx.stream("interpolation and square", ctx.scale(400_000), |r, o, _| {
        let c = |r: &mut Rng| match r.below(4) { 0 => 0.0f32, 1 => r.int(-9, 9) as f32, 2 => (r.sign() * r.log(1e-6, 1e6)) as f32, _ => r.range(-10., 10.) as f32 };
        let (a, b, x, y) = (c(r), c(r), c(r), c(r));
        let t = match r.below(5) { 0 => 0.0f32, 1 => 1.0, 2 => 0.5, 3 => r.range(-3., 4.) as f32, _ => r.unit() as f32 };
        o.fpf(&[a, b, x, y, t]);
        o.nontrivial();
        let want = |a: f32, b: f32| a as f64 + t as f64 * (b as f64 - a as f64);
        let tol = |a: f32, b: f32| 1e-6 * (1.0 + t.abs() as f64) * (a.abs() as f64 + b.abs() as f64);
        let ok = |got: f32, a: f32, b: f32| (got as f64 - want(a, b)).abs() <= tol(a, b) && (t != 0.0 || got == a);
        let g = Lerp::lerp(a, b, t);
        if !ok(g, a, b) { return violation("lerp/f32", format!("lerp({a}, {b}, {t}) = {g}, expected {}", want(a, b))); }
        let q = <Vec2 as Lerp>::lerp(Vec2::new(a, x), Vec2::new(b, y), t);
        if !ok(q.x, a, b) || !ok(q.y, x, y) { return violation("lerp/Vec2", format!("lerp(({a},{x}), ({b},{y}), {t}) = {q:?}, expected ({}, {})", want(a, b), want(x, y))); }
        let s = Square::square(a);
        if !((s as f64 - a as f64 * a as f64).abs() <= 1e-6 * a as f64 * a as f64) { return violation("square", format!("square({a}) = {s}")); }
        if f32::DEFAULT_TOLERANCE != 1e-6 || Vec2::DEFAULT_TOLERANCE != 1e-6 || Vec3::DEFAULT_TOLERANCE != 1e-6 { return violation("default-tolerance", "the default tolerance is not 1e-6"); }
        o.count("interpolations compared", 2);
        o.count("squares compared", 1);
        o.class(format!("lerp t {}", (t * 2.0).floor()));
        Ok(())
    });
}
