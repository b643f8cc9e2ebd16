//! C33: what operations hold on to. A counting allocator observes the memory of each thread; open
//! files are read from /proc/self/fd; values handed over carry counters.
use crate::fw::*;
use crate::gen::*;
use crate::q2d::{pair_name, pick_kind};
use crate::silent::digest_of;
use crate::tiles::*;
use auburn::col2d::Tilemap;
use auburn::utils::publisher::{CallbackPublisher, HashsetLedger, Ledger, Publisher};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::Arc;

pub struct Counting;
#[derive(Clone, Copy, Default, PartialEq, Eq, Debug)]
pub struct Held { pub blocks: i64, pub bytes: i64, top: i64 }
impl Held { const ZERO: Held = Held { blocks: 0, bytes: 0, top: 0 }; }
thread_local! { static HELD: Cell<Held> = const { Cell::new(Held::ZERO) }; }
fn note(blocks: i64, bytes: i64) {
    let _ = HELD.try_with(|h| { let mut x = h.get(); x.blocks += blocks; x.bytes += bytes; x.top = x.top.max(x.bytes); h.set(x) });
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { note(1, l.size() as i64); System.alloc(l) }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { note(1, l.size() as i64); System.alloc_zeroed(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { note(-1, -(l.size() as i64)); System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { note(0, n as i64 - l.size() as i64); System.realloc(p, l, n) }
}
/// what `f` leaves allocated on this thread, and the most it had allocated meanwhile
fn measure<X>(f: impl FnOnce() -> X) -> (X, Held) {
    let a = HELD.with(|h| { let mut x = h.get(); x.top = x.bytes; h.set(x); x });
    let x = f();
    let b = HELD.with(|h| h.get());
    (x, Held { blocks: b.blocks - a.blocks, bytes: b.bytes - a.bytes, top: b.top - a.bytes })
}
fn sum(a: &mut Held, b: Held) { a.blocks += b.blocks; a.bytes += b.bytes; }
fn nothing(h: &Held) -> bool { h.blocks == 0 && h.bytes == 0 }
/// Runs `f` twice; the second run must leave nothing behind (the first may set up something lasting).
fn keeps_nothing(what: &str, d: &dyn Fn() -> String, o: &mut Obs, f: &mut dyn FnMut()) -> Result<Held, Violation> {
    f();
    let (_, h) = measure(&mut *f);
    o.count("repeated operations measured", 1);
    if !nothing(&h) { return violation(format!("keeps/{what}"), format!("{what} left {} blocks and {} bytes allocated; {}", h.blocks, h.bytes, d())); }
    Ok(h)
}
/// Memory one query may use while it runs, shapes included; and what a long run may retain.
const ROOM: i64 = 64 << 10;
const LASTING_BLOCKS: i64 = 64;

/// open files below a directory or with this path
fn open_files(path: &str) -> Vec<String> {
    let Ok(dir) = std::fs::read_dir("/proc/self/fd") else { eprintln!("harness error: /proc/self/fd"); std::process::exit(2) };
    dir.flatten().filter_map(|e| std::fs::read_link(e.path()).ok()).map(|p| p.to_string_lossy().into_owned()).filter(|p| p.starts_with(path)).collect()
}

pub fn c33(ctx: &Ctx) {
    ctx.stream("queries", ctx.scale(100_000), |r, o, _| {
        let pairs = all_pairs();
        let k = pairs[r.below(pairs.len())];
        let kind = pick_kind(r);
        let c = if r.chance(0.3) {
            let (a, b) = (crate::x2d::degenerate_shape(r, k.0), crate::x2d::degenerate_shape(r, k.1));
            let pos = crate::x2d::degenerate_pos(r, &a, &b);
            (a, b, T { kind, pos, ang: gen_angle(r), sc: r.log(0.1, 10.) as f32 }.limited(kind))
        } else { let c = gen_case(r, k.0, k.1, kind, &DIMS); (c.a.clone(), c.b.clone(), c.rel) };
        o.fpf(&c.0.bits()); o.fpf(&c.1.bits()); o.fpf(&c.2.bits());
        o.nontrivial();
        let mut x = None;
        let h = keeps_nothing("a query", &|| format!("{:?} {:?} {:?}", c.0, c.1, c.2), o, &mut || { x = Some(std::hint::black_box(run_rel(&c.0, &c.1, k.2, &c.2))); })?;
        o.max("bytes in use during a query, shapes included", h.top as f64);
        if h.top > ROOM { return violation("room", format!("a query used {} bytes; {c:?}", h.top)); }
        o.class(format!("{} {:?} {}", pair_name(k), kind, if x.unwrap().collides { "overlap" } else { "apart" }));
        o.sample(|| format!("{c:?}: 0 bytes kept, {} used meanwhile", h.top));
        Ok(())
    });
    ctx.stream("scenes", ctx.scale(60_000), |r, o, _| {
        let i = r.u64() >> 24;
        let mut d = 0;
        keeps_nothing("a scene", &|| format!("scene {i}"), o, &mut || d = digest_of(&crate::x2d::silent_scene, ctx.seed, i))?;
        o.fp(d);
        o.nontrivial();
        o.class("scenes of queries, placements and tiles");
        Ok(())
    });
    ctx.stream("long runs", ctx.scale(4).max(16), |r, o, _| {
        let i = r.u64() >> 24;
        let run = |n: u64| for k in 0..n { digest_of(&crate::x2d::silent_scene, ctx.seed, i + k); };
        run(1000);
        const N: u64 = 15_000;
        let (_, h) = measure(|| run(N));
        o.fp(i);
        o.nontrivial();
        o.count("scenes in long runs", N);
        o.max("blocks kept after a long run", h.blocks as f64);
        o.max("bytes kept after a long run", h.bytes as f64);
        o.class("long runs");
        if h.blocks > LASTING_BLOCKS || h.bytes > ROOM { return violation("grows", format!("{N} scenes from {i} left {} blocks and {} bytes allocated", h.blocks, h.bytes)); }
        Ok(())
    });
    tilemaps(ctx);
    publishers(ctx);
    files(ctx);
}

fn tilemaps(ctx: &Ctx) {
    ctx.stream("tilemap", ctx.scale(12_000), |r, o, _| {
        let w = Window::gen(r);
        let mut m = Model::default();
        let (mut t, mut h) = measure(Tilemap::default);
        let n = if r.chance(0.05) { 600 } else { 1 + r.below(80) };
        let removes = r.pick(&[0.1, 0.3, 0.6]);
        let mut log: Vec<Op> = vec![];
        for k in 0..n {
            let op = gen_op(r, &w, &m, removes);
            log.push(op);
            let d = || format!("operations {:?}", &log[log.len().saturating_sub(80)..]);
            if let Op::Read(_) | Op::Query(..) = op {
                keeps_nothing("reading", &d, o, &mut || { apply(&mut t, &mut Model::default(), op); })?;
                continue;
            }
            let e;
            match op {
                Op::Set(p, x) => { let (_, g) = measure(|| t.set_tile(vv(p), x)); sum(&mut h, g); e = m.set(p, x) }
                Op::Remove(p) => { let (_, g) = measure(|| t.remove_tile(vv(p))); sum(&mut h, g); e = m.remove(p) }
                _ => unreachable!(),
            }
            o.fp((k, e.is_some()));
            if r.chance(0.1) { let (_, g) = measure(|| t.events.events = Vec::new()); sum(&mut h, g); }
            if k + 1 == n || r.chance(0.02) {
                // a map made directly with the same contents
                let (mut f, mut g) = measure(Tilemap::default);
                for c in m.chunks.clone() { let (_, x) = measure(|| f.set_tile(vv(corner(c)), 0)); sum(&mut g, x); }
                for (p, x) in m.tiles.clone() { let (_, y) = measure(|| f.set_tile(vv(p), x)); sum(&mut g, y); }
                o.count("maps compared with a fresh one of the same contents", 1);
                o.max("chunks in a compared map", m.chunks.len() as f64);
                if h.blocks > g.blocks + 2 { return violation("map-grows", format!("a map of {} chunks holds {} blocks after its history, a fresh one {}; {}", m.chunks.len(), h.blocks, g.blocks, d())); }
                let (_, x) = measure(|| drop(f));
                sum(&mut g, x);
                if !nothing(&g) { return violation("map-dropped", format!("a dropped map left {} blocks and {} bytes; contents {m:?}", g.blocks, g.bytes)); }
            }
        }
        let (_, g) = measure(|| drop(t));
        sum(&mut h, g);
        o.nontrivial();
        o.count("histories of a map measured to its end", 1);
        o.class(format!("{} {} chunks", w.kind, m.chunks.len().min(9)));
        if !nothing(&h) { return violation("map-dropped", format!("a dropped map left {} blocks and {} bytes; operations {log:?}", h.blocks, h.bytes)); }
        o.sample(|| format!("{} operations in {}: nothing left", log.len(), w.kind));
        Ok(())
    });
    ctx.stream("large maps", ctx.scale(60), |r, o, _| {
        let n = 1 + r.below(400);
        let (cs, kind) = many_chunks(r, n);
        let (mut t, mut h) = measure(Tilemap::default);
        let mut one = Held::ZERO;
        for (k, c) in cs.iter().enumerate() {
            let (_, g) = measure(|| t.set_tile(vv(*c), 1));
            sum(&mut h, g);
            if k == 0 { one = h; }
        }
        let full = h;
        for c in cs.iter().skip(1) { let (_, g) = measure(|| t.remove_tile(vv(*c))); sum(&mut h, g); }
        let (_, g) = measure(|| t.events.events = Vec::new());
        sum(&mut h, g);
        o.fp(&cs);
        o.nontrivial();
        o.class(kind);
        o.count("chunks created and removed", cs.len() as u64);
        if h.blocks > one.blocks + 2 { return violation("map-grows", format!("after creating {} chunks ({} blocks) and removing all but one the map holds {} blocks, with one chunk {}; {kind}", cs.len(), full.blocks, h.blocks, one.blocks)); }
        let (_, g) = measure(|| drop(t));
        sum(&mut h, g);
        if !nothing(&h) { return violation("map-dropped", format!("a dropped map of {} chunks left {} blocks and {} bytes", cs.len(), h.blocks, h.bytes)); }
        Ok(())
    });
}
fn corner(c: XY) -> XY { ((c.0 as i64 * 16) as i32, (c.1 as i64 * 16) as i32) }

#[derive(PartialEq, Eq, Hash)]
struct Key(u64, Box<u64>);

fn publishers(ctx: &Ctx) {
    ctx.stream("publishers", ctx.scale(20_000), |r, o, _| {
        let n = if r.chance(0.02) { 3000 } else { r.below(60) };
        // callbacks
        let marks: Vec<Arc<()>> = (0..1 + r.below(12)).map(|_| Arc::new(())).collect();
        let event = Arc::new(7u64);
        let seen = Arc::new(std::sync::atomic::AtomicU64::new(0));
        let mut late = vec![];
        let (res, h) = measure(|| {
            let mut p = CallbackPublisher::<Arc<u64>>::new();
            for (i, k) in marks.iter().enumerate() {
                if i % 3 != 1 { p.notify(event.clone()); late.push((Arc::strong_count(&event), i)); }
                let (k, s) = (k.clone(), seen.clone());
                p.attach(move |_| { let _k = &k; s.fetch_add(1, std::sync::atomic::Ordering::Relaxed); });
            }
            for _ in 0..n { p.notify(event.clone()); late.push((Arc::strong_count(&event), 0)); }
            let held = marks.iter().all(|k| Arc::strong_count(k) == 2);
            drop(p);
            late.shrink_to_fit();
            held
        });
        o.fp((n, marks.len()));
        o.nontrivial();
        o.count("events handed to callback publishers", late.len() as u64);
        if let Some(x) = late.iter().find(|x| x.0 != 1) { return violation("event-kept", format!("{} references to an event are left after its notification ({} subscribers)", x.0 - 1, marks.len())); }
        if !res { return violation("subscriber-copied", "a subscriber is held more or less than once"); }
        if let Some(k) = marks.iter().find(|k| Arc::strong_count(k) != 1) { return violation("subscriber-kept", format!("a subscriber of a dropped publisher is still held {} times", Arc::strong_count(k) - 1)); }
        let own = late.capacity() as i64 * std::mem::size_of::<(usize, usize)>() as i64;
        if h.bytes != own || h.blocks != (own > 0) as i64 { return violation("publisher-dropped", format!("a dropped callback publisher left {} bytes", h.bytes - own)); }
        // ledgers
        let ids: Vec<u64> = (0..n).map(|_| r.u64() % 40).collect();
        let (_, h) = measure(|| {
            let mut l = Ledger::<Box<u64>>::new();
            for i in &ids { l.notify(Box::new(*i)); }
            if r.chance(0.5) { l.events.clear(); }
        });
        if !nothing(&h) { return violation("ledger-dropped", format!("a dropped ledger left {} blocks and {} bytes", h.blocks, h.bytes)); }
        let (_, h) = measure(|| { let mut l = HashsetLedger::<Key>::new(); for i in &ids { l.notify(Key(*i, Box::new(*i))); } });
        if !nothing(&h) { return violation("ledger-dropped", format!("a dropped hash-set ledger left {} blocks and {} bytes", h.blocks, h.bytes)); }
        // repeated events leave nothing behind (the first round may make room in the table)
        let mut l = HashsetLedger::<Key>::new();
        for i in &ids { l.notify(Key(*i, Box::new(*i))); }
        keeps_nothing("repeating events to a hash-set ledger", &|| format!("{ids:?}"), o, &mut || for i in &ids { l.notify(Key(*i, Box::new(*i))) })?;
        o.count("events handed to ledgers", 3 * n as u64);
        o.class(format!("{} subscribers", marks.len()));
        Ok(())
    });
}

fn files(ctx: &Ctx) {
    let scratch = Scratch::new("c33");
    ctx.stream("files", ctx.scale(400), |r, o, _| {
        let (t, m, _) = gen_map(r, 60);
        for (p, x) in &m.tiles { o.fp((p, x)); }
        o.nontrivial();
        let d = || format!("{m:?}");
        // a directory of its own
        let own = format!("{}.d", thread_path(&scratch, "own"));
        let _ = std::fs::remove_dir_all(&own);
        std::fs::create_dir_all(&own).expect("harness-internal");
        let file: &'static str = thread_path_in(&own);
        let closed = |what: &str, o: &mut Obs| -> Verdict {
            let f = open_files(&own);
            o.count("looks at the open files", 1);
            if !f.is_empty() { return violation(format!("open/{what}"), format!("{f:?} left open after {what}; {m:?}")); }
            Ok(())
        };
        let mut ok = true;
        keeps_nothing("saving", &d, o, &mut || ok &= t.save(file).is_ok())?;
        closed("saving", o)?;
        let entries = || -> Vec<_> { std::fs::read_dir(&own).expect("harness-internal").flatten().map(|e| e.file_name()).collect() };
        if entries() != vec![std::ffi::OsString::from("m.json")] { return violation("strays", format!("files after saving: {:?}", entries())); }
        keeps_nothing("loading", &d, o, &mut || ok &= Tilemap::load(file).is_ok())?;
        closed("loading", o)?;
        if !ok { return violation("failed", format!("saving or loading failed; {m:?}")); }
        // faults
        let len = std::fs::metadata(file).expect("harness-internal").len();
        let cut = r.below(len as usize) as u64;
        std::fs::OpenOptions::new().write(true).open(file).and_then(|f| f.set_len(cut)).expect("harness-internal");
        keeps_nothing("loading a truncated file", &d, o, &mut || ok &= Tilemap::load(file).is_err())?;
        closed("loading a truncated file", o)?;
        std::fs::remove_file(file).expect("harness-internal");
        keeps_nothing("loading a missing file", &d, o, &mut || ok &= Tilemap::load(file).is_err())?;
        std::fs::create_dir(file).expect("harness-internal");
        keeps_nothing("saving over a directory", &d, o, &mut || ok &= t.save(file).is_err())?;
        keeps_nothing("loading a directory", &d, o, &mut || ok &= Tilemap::load(file).is_err())?;
        closed("failing", o)?;
        if std::path::Path::new("/dev/full").exists() {
            keeps_nothing("saving to a full device", &d, o, &mut || { let _ = t.save("/dev/full"); })?;
        }
        if entries() != vec![std::ffi::OsString::from("m.json")] { return violation("strays", format!("files after failing: {:?}", entries())); }
        // text
        let text = serde_json::to_string(&t).expect("harness-internal: serialising");
        keeps_nothing("serialising", &d, o, &mut || { std::hint::black_box(serde_json::to_string(&t).is_ok()); })?;
        keeps_nothing("deserialising", &d, o, &mut || { std::hint::black_box(serde_json::from_str::<Tilemap>(&text).is_ok()); })?;
        keeps_nothing("deserialising a part", &d, o, &mut || { std::hint::black_box(serde_json::from_str::<Tilemap>(&text[..cut as usize % text.len()]).is_ok()); })?;
        o.class(format!("{} chunks", m.chunks.len().min(9)));
        Ok(())
    });
}
fn thread_path_in(dir: &str) -> &'static str {
    use std::cell::RefCell;
    thread_local! { static PATH: RefCell<Option<(String, &'static str)>> = const { RefCell::new(None) }; }
    PATH.with(|m| { let mut m = m.borrow_mut(); if m.as_ref().is_none_or(|x| x.0 != dir) { *m = Some((dir.into(), Box::leak(format!("{dir}/m.json").into_boxed_str()))); } m.as_ref().unwrap().1 })
}
