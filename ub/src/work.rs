//! What runs under the interpreter and the sanitizers: the whole public surface, on ordinary, degenerate and
//! hostile input, from one thread and from several. Nothing is compared here; the watching tool decides.
use crate::gen::*;
use crate::geo::p;
use crate::rng::Rng;
use crate::{scene3d, scenetiles, Answers};
use auburn::col2d::*;
use auburn::utils::publisher::*;
use lk_math::vector::V2i32;
use std::cell::Cell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::{Arc, Mutex, RwLock};

pub const GROUPS: [&str; 6] = ["queries", "tilemap", "shapes and helpers", "3d", "hostile", "shared"];
pub fn scene(group: &str, r: &mut Rng, a: &mut Answers) {
    match group {
        "queries" => queries(r, a),
        "tilemap" => { scenetiles::scene(r, a); let few = if cfg!(miri) { 0.05 } else { 0.3 }; if r.chance(few) { tampered(r, a) } if r.chance(few) { growth(r, a) } }
        "shapes and helpers" => match r.below(3) { 0 => crate::scene2d::placements(r, a), 1 => crate::scene2d::shapes(r, a), _ => crate::scene2d::helpers(r, a) },
        "3d" => scene3d::scene(r, a),
        "hostile" => hostile(r, a),
        "shared" => shared(r, a),
        _ => { eprintln!("harness error: no group {group}"); std::process::exit(2) }
    }
}

fn kind_of(r: &mut Rng) -> K { r.pick(&KINDS) }
fn near(r: &mut Rng, f: f64) -> Vec2 {
    match r.below(6) { 0 => Vec2::ZERO, 1 => v(p(r.int(-2, 2) as f64 * f, r.int(-2, 2) as f64 * f)), 2 => v(p(r.range(-0.01, 0.01) * f, 0.0)), 3 => v(p(r.range(-9., 9.) * f, r.range(-9., 9.) * f)), _ => v(p(r.range(-2., 2.) * f, r.range(-2., 2.) * f)) }
}
/// the interpreter is slow: its scenes are made without the exact reference
fn pair(r: &mut Rng) -> (S, S, usize, T) {
    let pairs = all_pairs();
    let k = pairs[r.below(pairs.len())];
    let kind = kind_of(r);
    if r.chance(0.3) {
        let (x, y) = (crate::scene2d::degenerate(r, k.0), crate::scene2d::degenerate(r, k.1));
        let f = r.log(1e-3, 1e3);
        return (x, y, k.2, T { kind, pos: near(r, f), ang: gen_angle(r), sc: r.log(0.1, 10.) as f32 }.limited(kind));
    }
    if cfg!(miri) {
        let (x, y) = (small_shape(r, k.0), small_shape(r, k.1));
        (x, y, k.2, T { kind, pos: near(r, 1.0), ang: gen_angle(r), sc: r.log(0.3, 3.) as f32 }.limited(kind))
    } else {
        let c = gen_case(r, k.0, k.1, kind, &DIMS);
        (c.a, c.b, k.2, c.rel)
    }
}
fn small_shape(r: &mut Rng, kind: usize) -> S {
    match kind {
        0 => S::Pt,
        1 => S::Ball(r.range(0.1, 2.) as f32),
        2 => S::Bx(r.range(0.1, 2.) as f32, r.range(0.1, 2.) as f32),
        _ => { let n = 3 + r.below(7); let (a, b) = (r.range(0.2, 2.), r.range(0.2, 2.)); S::Poly((0..n).map(|i| { let t = i as f64 * std::f64::consts::TAU / n as f64; v(p(a * t.cos(), b * t.sin())) }).collect()) }
    }
}
fn put(a: &mut Answers, x: &R) { a.b("", x.collides); a.ov("", x.pen); a.ov("", x.dist); a.b("", x.sdfv.0); a.v("", x.sdfv.1); if let Some(s) = x.sdf { a.f("", s) } }
fn queries(r: &mut Rng, a: &mut Answers) {
    let (x, y, rep, t) = pair(r);
    put(a, &run_rel(&x, &y, rep, &t));
    if r.chance(0.5) {
        let kind = if t.kind == K::Ident { K::Vec } else { t.kind };
        let place = |r: &mut Rng| T { kind, pos: near(r, 1.0), ang: gen_angle(r), sc: r.log(0.3, 3.) as f32 }.limited(kind);
        let (ta, tb) = (place(r), place(r));
        let form = r.below(4);
        put(a, &run_world(&x, &ta, &y, &tb, rep, form));
    }
}

// ---------------------------------------------------------------- hostile input

/// A saved map changed somewhere: what it means is open, but using what loads must stay within memory.
fn tampered(r: &mut Rng, a: &mut Answers) {
    let mut t = Tilemap::default();
    let q: Vec<V2i32> = (0..1 + r.below(3)).map(|_| V2i32::from_xy(r.int(-20, 20) as i32, r.int(-20, 20) as i32)).collect();
    for x in &q { t.set_tile(*x, 1 + r.below(3) as u8) }
    let mut text = serde_json::to_string(&t).expect("harness-internal: serialising").into_bytes();
    for _ in 0..1 + r.below(3) {
        let heads = text.windows(6).enumerate().filter(|w| w.1.starts_with(b"dim") || w.1.starts_with(b"\"data")).map(|w| w.0).collect::<Vec<_>>();
        // mostly the dimensions and the ends of the data
        let at = if r.chance(0.7) && !heads.is_empty() { heads[r.below(heads.len())] + r.below(24) } else { r.below(text.len()) }.min(text.len() - 1);
        match r.below(3) { 0 => text[at] = b'0' + r.below(10) as u8, 1 => text.insert(at, b'0' + r.below(10) as u8), _ => { text.remove(at); } }
    }
    // or the arrays of one chunk: cut short, emptied, lengthened, other dimensions
    if r.chance(0.6) {
        let mut whole = serde_json::to_value(&t).expect("harness-internal: serialising");
        fn change(v: &mut serde_json::Value, named: bool, r: &mut Rng) {
            match v {
                serde_json::Value::Object(m) => for (k, x) in m.iter_mut() { change(x, k.starts_with("dim") || k == "data", r) },
                serde_json::Value::Array(q) if named => {
                    if r.chance(0.4) { return; }
                    let n = q.len();
                    match r.below(4) {
                        0 => q.truncate(r.below(n + 1)),
                        1 => q.clear(),
                        2 => q.push(1.into()),
                        _ => if n > 0 { let (i, x) = (r.below(n), r.pick(&[0u64, 1, 15, 17, 255, 256, 300])); q[i] = x.into() },
                    }
                }
                serde_json::Value::Array(q) => for x in q { change(x, false, r) },
                _ => {}
            }
        }
        change(&mut whole, false, r);
        text = serde_json::to_vec(&whole).expect("harness-internal: serialising");
    }
    let Ok(mut u) = serde_json::from_slice::<Tilemap>(&text) else { a.b("rejected", true); return };
    a.b("rejected", false);
    let ok = catch_unwind(AssertUnwindSafe(|| {
        for x in &q { for d in 0..4 { u.get_tile(V2i32::from_xy(x.x() ^ (5 * d), x.y() ^ (4 * d))); } u.get_tile(V2i32::from_xy(x.x() | 15, x.y() | 15)); u.get_tile(V2i32::from_xy(x.x() + 5, x.y() - 7)); if let Some(c) = u.get_chunk(&u.tile_to_chunk_pos(x)) { std::hint::black_box(c.array2d.data.len()); } }
        for x in &q { u.set_tile(V2i32::from_xy(x.x(), x.y() ^ 3), 7); u.remove_tile(*x); }
        u.simple_resolve_ball(&Ball::with_radius(1.5), u.tile_to_world_pos(&q[0]), &Vec2::X)
    })).is_ok();
    a.b("survived", ok);
}
/// Chunks appear and disappear while others are read and edited: nothing remembered may outlive its chunk.
fn growth(r: &mut Rng, a: &mut Answers) {
    let mut t = Tilemap::default();
    let (n, home) = (if cfg!(miri) { 6 + r.below(20) } else { 200 }, V2i32::from_xy(3, 3));
    t.set_tile(home, 9);
    for i in 0..n as i32 {
        t.set_tile(V2i32::from_xy(i * 16, -i * 16), 1);
        a.u("", t.get_tile(home) as u64);
        if r.chance(0.3) { t.set_tile(home, (i % 9 + 1) as u8); }
        if r.chance(0.2) { t.remove_tile(home); a.u("", t.get_tile(home) as u64); t.set_tile(home, 9); }
        if r.chance(0.02) { let b = std::mem::take(&mut t); t = b; }
        if r.chance(0.02) { t = Tilemap::default(); a.u("", t.get_tile(home) as u64); t.set_tile(home, 9); }
    }
    for i in 0..n as i32 { t.remove_tile(V2i32::from_xy(i * 16, -i * 16)); a.u("", t.get_tile(home) as u64); }
    let b = Box::new(t);
    a.u("", b.get_tile(home) as u64);
    let t = *b;
    a.u("", t.get_tile(home) as u64);
}

/// A user-defined shape that answers nonsense, or panics after a while.
struct Liar { r: std::cell::RefCell<Rng>, left: Cell<u32>, mode: usize }
impl Liar {
    fn new(r: &mut Rng) -> Liar { Liar { r: Rng::new(r.u64(), 1, 1).into(), left: Cell::new(r.below(12) as u32), mode: r.below(6) } }
}
impl ExtremePoint2d for Liar {
    fn extreme_point(&self, d: Vec2) -> Vec2 {
        let mut r = self.r.borrow_mut();
        if self.left.get() == 0 { if self.mode == 0 { drop(r); panic!("a user's panic") } } else { self.left.set(self.left.get() - 1) }
        match self.mode {
            1 => Vec2::NAN,
            2 => Vec2::new(f32::INFINITY, -f32::MAX),
            3 => -d,
            4 => Vec2::ZERO,
            _ => { let f = r.log(1e-20, 1e20); Vec2::new((r.range(-1., 1.) * f) as f32, (r.range(-1., 1.) * f) as f32) }
        }
    }
}
struct Any(Box<dyn ExtremePoint2d>);
impl ExtremePoint2d for Any { fn extreme_point(&self, d: Vec2) -> Vec2 { self.0.extreme_point(d) } }
macro_rules! mixed { ($($x:ty),+) => { $(
    impl<B: ExtremePoint2d> DefaultMinkowski<B> for $x {}
    impl DefaultMinkowski<$x> for Ball {}
    impl DefaultMinkowski<$x> for Box2d {}
    impl DefaultMinkowski<$x> for Poly2d {}
    impl DefaultMinkowski<$x> for Shape2d {}
    impl<T: Transformation2d> ExtremePointT2d<T> for $x {}
)+ } }
mixed!(Liar, Any);
fn wild(r: &mut Rng) -> f32 { match r.below(8) { 0 => f32::NAN, 1 => f32::INFINITY, 2 => -f32::MAX, 3 => 0.0, 4 => f32::from_bits(r.u64() as u32), _ => r.range(-3., 3.) as f32 } }
fn hostile(r: &mut Rng, a: &mut Answers) {
    let t = Transform2d::from_angle(gen_angle(r)).with_translation(Vec2::new(wild(r), wild(r)));
    macro_rules! ask { ($x:expr, $y:expr) => {{
        let (x, y) = ($x, $y);
        a.b("", catch_unwind(AssertUnwindSafe(|| x.collides_rel(&y, &t))).unwrap_or(false));
        a.b("", catch_unwind(AssertUnwindSafe(|| x.penetrates_rel(&y, &t).is_some())).unwrap_or(false));
        a.b("", catch_unwind(AssertUnwindSafe(|| x.distance_to_rel(&y, &t).is_some())).unwrap_or(false));
        a.b("", catch_unwind(AssertUnwindSafe(|| x.sdfv_rel(&y, &t).0)).unwrap_or(false));
    }} }
    let pts: Vec<Vec2> = (0..r.below(6)).map(|_| Vec2::new(wild(r), wild(r))).collect();
    match r.below(9) {
        0 => ask!(Liar::new(r), Liar::new(r)),
        1 => ask!(Liar::new(r), Ball::with_radius(1.0)),
        2 => ask!(Poly2d::regular(3 + r.below(5), 1.0), Liar::new(r)),
        3 => ask!(Any(Box::new(Liar::new(r))), Box2d::with_halfdims(1.0, 2.0)),
        4 => ask!(Shape2d::Ball(Ball::with_radius(1.0)), Liar::new(r)),
        5 => {
            // polygons of any vertices, none included
            let q = Poly2d::new(&pts);
            let d = Vec2::new(wild(r), wild(r));
            a.b("", catch_unwind(AssertUnwindSafe(|| q.extreme_point(d))).is_ok());
            a.b("", catch_unwind(AssertUnwindSafe(|| q.strict_check())).is_ok());
            a.b("", catch_unwind(AssertUnwindSafe(|| Poly2d::new(&pts).symmetric_bounding_box())).is_ok());
            // with few sides, or with very many
            let n = match r.below(5) { 0 => 250 + r.below(1500), 1 => r.below(70), _ => r.below(4) };
            let radius = wild(r);
            a.b("", catch_unwind(AssertUnwindSafe(|| {
                let (p, q) = (Poly2d::regular(n, radius), Poly2d::regular_upright(n, 1.0));
                (p.extreme_point(d), q.clone().extreme_point(d), q.symmetric_bounding_box(), p.points.len()).3
            })).is_ok());
            ask!(Poly2d::new(&pts), Box2d::with_halfdims(wild(r), wild(r)));
        }
        6 => {
            // subscribers that panic, in any order, and are asked again afterwards
            let seen = Arc::new(AtomicU64::new(0));
            let mut c = CallbackPublisher::<Box<u64>>::new();
            for i in 0..r.below(6) { let seen = seen.clone(); c.attach(move |e: &Box<u64>| { seen.fetch_add(**e, Relaxed); if **e % 5 == i as u64 { panic!("a subscriber's panic") } }); }
            for e in 0..8 { a.b("", catch_unwind(AssertUnwindSafe(|| c.notify(Box::new(e)))).is_ok()); }
            drop(c);
            a.u("", Arc::strong_count(&seen) as u64);
        }
        7 => {
            // keys that lie about their hash and equality
            #[derive(Clone)]
            struct Key(u64, Box<u64>);
            thread_local! { static STEP: Cell<u64> = const { Cell::new(0) }; }
            let step = || STEP.with(|s| { s.set(s.get().wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407)); s.get() >> 33 });
            impl PartialEq for Key { fn eq(&self, o: &Key) -> bool { let s = STEP.with(|s| { s.set(s.get() + 1); s.get() }); if s % 97 == 0 { panic!("a key's panic") } (self.0 ^ *o.1) % 3 == s % 2 } }
            impl Eq for Key {}
            impl std::hash::Hash for Key { fn hash<H: std::hash::Hasher>(&self, h: &mut H) { STEP.with(|s| s.get() % 4).hash(h) } }
            let mut l = HashsetLedger::<Key>::new();
            let mut k = Ledger::<Key>::new();
            for _ in 0..r.below(40) { let x = Key(step(), Box::new(1)); k.notify(x.clone()); a.b("", catch_unwind(AssertUnwindSafe(|| l.notify(x))).is_ok()); }
            // how many depends on the lies
            std::hint::black_box(l.events.len() + k.events.len());
        }
        _ => {
            // rectangles and maps at the ends of their ranges
            let e = |r: &mut Rng| match r.below(5) { 0 => i32::MAX, 1 => i32::MIN, 2 => i32::MIN + 15, _ => r.int(-40, 40) as i32 };
            let mut t = Tilemap::default();
            for _ in 0..6 { let q = V2i32::from_xy(e(r), e(r)); t.set_tile(q, 3); a.u("", t.get_tile(q) as u64); a.u("", t.get_tile(V2i32::from_xy(e(r), e(r))) as u64); if r.chance(0.4) { t.remove_tile(q) } }
            let w = Vec2::new(wild(r), wild(r));
            a.b("", catch_unwind(AssertUnwindSafe(|| t.collides_rel(&Point, &w))).is_ok());
            let q = t.world_to_tile_pos(&w);
            // rows of an empty rectangle are passed over one by one
            let (x, y) = (e(r), e(r));
            let rect = auburn::utils::rect2::Rect2i32 { min: q, max: V2i32::from_xy(x.max(q.x()), y.max(q.y())) };
            a.b("", catch_unwind(AssertUnwindSafe(|| rect.iterate_with_direction_f32(w.x, w.y).take(50).count())).is_ok());
        }
    }
}

// ---------------------------------------------------------------- several threads

pub static TURN: AtomicU64 = AtomicU64::new(0);
/// Several threads ask shared shapes and a shared map, and hand a publisher and a second map around. The only
/// synchronisation is the users': any further access the library makes is unsynchronised.
fn shared(r: &mut Rng, a: &mut Answers) {
    let threads = if cfg!(miri) { 3 } else { 6 };
    let each = if cfg!(miri) { 3 } else { 40 };
    let (x, y, rep, t) = pair(r);
    let shapes: Vec<(S, Shape2d)> = (0..3).map(|k| { let s = if cfg!(miri) { small_shape(r, k + 1) } else { gen_shape(r, k + 1, Dim::Generic) }; let h = s.shape2d(); (s, h) }).collect();
    let places: Vec<Transform2d> = shapes.iter().map(|_| Transform2d::from_translation(near(r, 1.0)).with_angle(gen_angle(r))).collect();
    let colliders: Vec<Collider2d<Shape2d, Transform2d>> = shapes.iter().zip(&places).map(|(s, t)| Collider2d::new(&s.1, t)).collect();
    let mut map = Tilemap::default();
    for _ in 0..5 { map.set_tile(V2i32::from_xy(r.int(-3, 3) as i32, r.int(-3, 3) as i32), 1); }
    let edited = RwLock::new(Tilemap::default());
    let count = Arc::new(AtomicU64::new(0));
    let mut c = CallbackPublisher::<u64>::new();
    for _ in 0..2 { let count = count.clone(); c.attach(move |e: &u64| { count.fetch_add(*e, Relaxed); }); }
    let publisher = Mutex::new(c);
    let ledger = Mutex::new(Ledger::<Box<u64>>::new());
    let seeds: Vec<u64> = (0..threads).map(|_| r.u64()).collect();
    // who asked when; relaxed, so it orders nothing
    let turn = AtomicU64::new(0);
    let order: Vec<Vec<u64>> = std::thread::scope(|sc| {
        let hs: Vec<_> = seeds.iter().map(|seed| {
            let (x, y, t, shapes, colliders, map, edited, publisher, ledger, turn) = (&x, &y, &t, &shapes, &colliders, &map, &edited, &publisher, &ledger, &turn);
            sc.spawn(move || {
                let mut r = Rng::new(*seed, 3, 3);
                let mut mine = vec![];
                for _ in 0..each {
                    mine.push(turn.fetch_add(1, Relaxed));
                    match r.below(8) {
                        0 => { run_rel(x, y, rep, t); }
                        // whatever is shared behind the scenes
                        6 => { let mut a = Answers::default(); match r.below(3) { 0 => crate::scene2d::placements(&mut r, &mut a), 1 => crate::scene2d::shapes(&mut r, &mut a), _ => crate::scene2d::helpers(&mut r, &mut a) } }
                        7 => scene3d::scene(&mut r, &mut Answers::default()),
                        1 => { let (i, j) = (r.below(3), r.below(3)); std::hint::black_box((colliders[i].collides(colliders[j]), colliders[i].sdfv(colliders[j]), colliders[i].penetrates(colliders[j]), colliders[i].distance_to(colliders[j]))); }
                        2 => { let s = &shapes[r.below(3)].1; std::hint::black_box((s.extreme_point(near(&mut r, 1.0)), s.collides_rel(&shapes[0].1, &near(&mut r, 1.0)))); }
                        3 => { let w = near(&mut r, 1.0); std::hint::black_box((map.collides_rel(&Point, &w), map.simple_resolve_ball(&Ball::with_radius(0.7), w, &Vec2::X), map.get_tile(map.world_to_tile_pos(&w)))); }
                        4 => { publisher.lock().unwrap().notify(1); ledger.lock().unwrap().notify(Box::new(1)); if r.chance(0.2) { publisher.lock().unwrap().attach(|_| ()); } }
                        _ => { let q = V2i32::from_xy(r.int(-20, 20) as i32, r.int(-20, 20) as i32); if r.chance(0.5) { edited.write().unwrap().set_tile(q, 2) } else if r.chance(0.3) { edited.write().unwrap().remove_tile(q) } else { edited.read().unwrap().get_tile(q); } }
                    }
                }
                mine
            })
        }).collect();
        hs.into_iter().map(|h| h.join().expect("harness-internal: a thread panicked")).collect()
    });
    let mut o = Answers::default();
    for t in &order { for x in t { o.u("", *x) } }
    TURN.store(o.hash(), Relaxed);
    // the map and the publisher move to another thread and die there
    let e = edited.into_inner().unwrap();
    let p = publisher.into_inner().unwrap();
    std::thread::spawn(move || { drop(p); e.get_tile(V2i32::from_xy(1, 1)) }).join().expect("harness-internal: a thread panicked");
    a.u("", count.load(Relaxed).min(1));
}
