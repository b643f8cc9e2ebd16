//! Monitors for the tilemap and the integer rectangle.
use crate::fw::*;
use crate::geo::*;
use crate::rng::Rng;
use crate::x2d::tag;
use auburn::col2d::{AxisTransform2d, Ball, Box2d, Collider2d, Collides2d, CollidesRel2d, Point, Rotor2d, Tilemap, TilemapEvent, Transform2d, Translate2d, Vec2};
use auburn::utils::rect2::Rect2i32;
use lk_math::vector::V2i32;
use std::collections::{BTreeMap, BTreeSet};

pub type XY = (i32, i32);
pub fn vv(p: XY) -> V2i32 { V2i32::from_xy(p.0, p.1) }
fn xy(p: V2i32) -> XY { (p.x(), p.y()) }
fn chunk_of(p: XY) -> XY { (p.0.div_euclid(16), p.1.div_euclid(16)) }
fn local_of(p: XY) -> XY { (p.0.rem_euclid(16), p.1.rem_euclid(16)) }

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Ev { Created(XY), Removed(XY), Changed(XY) }
fn ev(e: &TilemapEvent) -> Ev {
    match e { TilemapEvent::ChunkCreated(p) => Ev::Created(xy(*p)), TilemapEvent::ChunkRemoved(p) => Ev::Removed(xy(*p)), TilemapEvent::ChunkChanged(p) => Ev::Changed(xy(*p)) }
}

/// Reference model: the non-zero tiles and the existing chunks.
#[derive(Clone, Default, Debug, PartialEq)]
pub struct Model { pub tiles: BTreeMap<XY, u8>, pub chunks: BTreeSet<XY>, filled: BTreeMap<XY, u32> }
impl Model {
    fn get(&self, p: XY) -> u8 { *self.tiles.get(&p).unwrap_or(&0) }
    pub fn set(&mut self, p: XY, t: u8) -> Option<Ev> {
        let c = chunk_of(p);
        let old = self.get(p);
        if t == 0 { self.tiles.remove(&p); } else { self.tiles.insert(p, t); }
        let n = self.filled.entry(c).or_insert(0);
        *n = *n + (t != 0) as u32 - (old != 0) as u32;
        if self.chunks.insert(c) { Some(Ev::Created(c)) } else if old != t { Some(Ev::Changed(c)) } else { None }
    }
    pub fn remove(&mut self, p: XY) -> Option<Ev> {
        let c = chunk_of(p);
        if !self.chunks.contains(&c) { return None; }
        let old = self.tiles.remove(&p).unwrap_or(0);
        let n = self.filled.entry(c).or_insert(0);
        *n -= (old != 0) as u32;
        if *n == 0 { self.chunks.remove(&c); self.filled.remove(&c); Some(Ev::Removed(c)) }
        else if old != 0 { Some(Ev::Changed(c)) } else { None }
    }
}

#[derive(Clone, Copy, Debug)]
pub enum Op { Set(XY, u8), Remove(XY), Read(XY), Query(f32, f32) }

/// A window of positions an operation sequence plays in.
#[derive(Clone, Debug)]
pub struct Window { base: XY, w: i32, h: i32, pub kind: &'static str, aliases: Vec<XY> }
impl Window {
    pub fn gen(r: &mut Rng) -> Window {
        let mut w = Window::plain(r);
        // positions related to one of the window: a power of two away, mirrored, swapped, or the same
        // under a linear numbering of the tiles
        if r.chance(0.35) {
            for _ in 0..1 + r.below(6) {
                let (x, y) = w.pos(r);
                let d = (r.sign() as i32).wrapping_shl(r.below(32) as u32);
                let k = r.int(-40, 40) as i32;
                w.aliases.push(match r.below(8) {
                    0 | 1 => (x.wrapping_add(d), y),
                    2 | 3 => (x, y.wrapping_add(d)),
                    4 => (x.wrapping_add(d), y.wrapping_add(d)),
                    5 => (y, x),
                    6 => (r.pick(&[x, x.wrapping_neg(), !x]), r.pick(&[y.wrapping_neg(), !y])),
                    _ => { let s = r.pick(&[16, 31, 37, 256, 1000, 1024, 65536, 65599]); let (a, b) = (k, k.wrapping_mul(s).wrapping_neg()); if r.chance(0.5) { (x.wrapping_add(a), y.wrapping_add(b)) } else { (x.wrapping_add(b), y.wrapping_add(a)) } }
                });
            }
        }
        w
    }
    fn plain(r: &mut Rng) -> Window {
        let (w, h) = (1 + r.below(6) as i32, 1 + r.below(6) as i32);
        let near = |r: &mut Rng, b: i32| b - r.below(6) as i32;
        match r.below(8) {
            0 => Window { base: (near(r, 0), near(r, 0)), w, h, kind: "around the origin", aliases: vec![] },
            1 => { let (a, b) = (16 * r.int(-3, 3) as i32, 16 * r.int(-3, 3) as i32); Window { base: (near(r, a), near(r, b)), w, h, kind: "chunk corner", aliases: vec![] } }
            2 => Window { base: (i32::MIN, r.int(-100, 100) as i32), w, h, kind: "smallest x", aliases: vec![] },
            3 => Window { base: (i32::MAX - w + 1, i32::MIN), w, h, kind: "largest x, smallest y", aliases: vec![] },
            4 => Window { base: (r.int(-40, 40) as i32, i32::MAX - h + 1), w, h, kind: "largest y", aliases: vec![] },
            5 => Window { base: (r.int(-1_000_000_000, 1_000_000_000) as i32, r.int(-1_000_000_000, 1_000_000_000) as i32), w, h, kind: "far away", aliases: vec![] },
            6 => Window { base: (r.int(-40, 40) as i32, r.int(-40, 40) as i32), w: 40, h: 40, kind: "wide", aliases: vec![] },
            _ => Window { base: (r.int(-40, 40) as i32, r.int(-40, 40) as i32), w, h, kind: "anywhere", aliases: vec![] },
        }
    }
    fn pos(&self, r: &mut Rng) -> XY { if !self.aliases.is_empty() && r.chance(0.3) { return r.pick(&self.aliases); } (self.base.0 + r.below(self.w as usize) as i32, self.base.1 + r.below(self.h as usize) as i32) }
    /// the window and one tile around it
    fn around(&self) -> Vec<XY> {
        let mut v = self.aliases.clone();
        for y in -1..=self.h { for x in -1..=self.w {
            if let (Some(a), Some(b)) = (self.base.0.checked_add(x), self.base.1.checked_add(y)) { v.push((a, b)); }
        } }
        v
    }
    fn chunks(&self) -> BTreeSet<XY> {
        let mut s = BTreeSet::new();
        for p in self.around() { let c = chunk_of(p); for y in -1..=1 { for x in -1..=1 { s.insert((c.0 + x, c.1 + y)); } } }
        s
    }
}
fn gen_tile(r: &mut Rng) -> u8 { match r.below(5) { 0 => 0, 1 => 255, 2 => 1 + r.below(254) as u8, _ => 1 + r.below(2) as u8 } }
pub fn gen_op(r: &mut Rng, w: &Window, m: &Model, removes: f64) -> Op {
    let p = if !m.tiles.is_empty() && r.chance(0.4) { let k = r.below(m.tiles.len()); *m.tiles.keys().nth(k).unwrap() } else { w.pos(r) };
    if r.chance(removes) { Op::Remove(p) } else {
        match r.below(12) { 0 => Op::Read(p), 1 => Op::Query(p.0 as f32, p.1 as f32), _ => Op::Set(p, if r.chance(0.2) { m.get(p) } else { gen_tile(r) }) }
    }
}
pub fn apply(t: &mut Tilemap, m: &mut Model, op: Op) -> Option<Ev> {
    match op {
        Op::Set(p, x) => { t.set_tile(vv(p), x); m.set(p, x) }
        Op::Remove(p) => { t.remove_tile(vv(p)); m.remove(p) }
        Op::Read(p) => { t.get_tile(vv(p)); t.get_chunk(&vv(chunk_of(p))); t.tile_to_chunk_pos(&vv(p)); None }
        Op::Query(x, y) => {
            let b = Ball::with_radius(0.4);
            t.collides_rel(&Point, &Vec2::new(x, y));
            if x.abs() < 1e6 && y.abs() < 1e6 { t.simple_resolve_ball(&b, Vec2::new(x, y), &Vec2::X); t.simple_resolve_box(&Box2d::with_halfdims(0.6, 0.7), Vec2::new(x, y), &-Vec2::Y); }
            None
        }
    }
}
fn compare_tiles(t: &Tilemap, m: &Model, ps: &[XY], log: &dyn Fn() -> String, o: &mut Obs) -> Verdict {
    for p in ps {
        let (got, want) = (t.get_tile(vv(*p)), m.get(*p));
        if got != want { return violation("tile", format!("tile {p:?} reads {got}, last set to {want}; {}", log())); }
    }
    o.count("tiles read back and compared", ps.len() as u64);
    Ok(())
}
fn compare_chunks(t: &Tilemap, m: &Model, cs: &BTreeSet<XY>, log: &dyn Fn() -> String, o: &mut Obs) -> Verdict {
    for c in cs {
        let (got, want) = (t.get_chunk(&vv(*c)).is_some(), m.chunks.contains(c));
        if got != want { return violation("chunk", format!("chunk {c:?} exists={got}, expected {want}; {}", log())); }
    }
    o.count("chunks compared", cs.len() as u64);
    Ok(())
}

fn histories(ctx: &Ctx, events: bool) {
    for (name, n, len) in [("short histories", 60_000u64, 24usize), ("long histories", 1_500, 600)] {
        ctx.stream(&format!("{} {name}", if events { "event" } else { "map" }), ctx.scale(n), |r, o, _| {
            let w = Window::gen(r);
            let removes = r.pick(&[0.1, 0.3, 0.5, 0.7]);
            let mut t = Tilemap::default();
            let mut m = Model::default();
            let mut ops: Vec<Op> = vec![];
            let mut seen = 0usize;
            let mut replayed: BTreeSet<XY> = BTreeSet::new();
            let around = w.around();
            let chunks = w.chunks();
            // a second window far away, to notice effects on unrelated positions
            let probe: Vec<XY> = (0..4).map(|_| (r.u64() as i32, r.u64() as i32)).collect();
            let n = 1 + r.below(len);
            // a user who takes the events away once they are dealt with
            let drains = if events && r.chance(0.3) { r.pick(&[0.05, 0.3, 1.0]) } else { 0.0 };
            let mut drained = false;
            for step in 0..n {
                if drains > 0.0 && r.chance(drains) { t.events.events.clear(); seen = 0; drained = true; o.count("event logs taken away", 1); }
                let op = gen_op(r, &w, &m, removes);
                ops.push(op);
                let want = apply(&mut t, &mut m, op);
                let log = || format!("step {step}, history {:?}", &ops[ops.len().saturating_sub(40)..]);
                if !events {
                    match op { Op::Set(p, _) | Op::Remove(p) | Op::Read(p) => compare_tiles(&t, &m, &[p], &log, o)?, _ => {} }
                    if around.len() < 80 || step % 37 == 0 || step + 1 == n { compare_tiles(&t, &m, &around, &log, o)?; }
                    if step % 8 == 0 || step + 1 == n { compare_tiles(&t, &m, &probe, &log, o)?; }
                    let all: Vec<XY> = if step + 1 == n { m.tiles.keys().copied().collect() } else { vec![] };
                    compare_tiles(&t, &m, &all, &log, o)?;
                } else {
                    let got: Vec<Ev> = t.events.events[seen.min(t.events.events.len())..].iter().map(ev).collect();
                    if t.events.events.len() < seen { return violation("events-lost", log()); }
                    seen = t.events.events.len();
                    let want: Vec<Ev> = want.into_iter().collect();
                    if got != want {
                        return violation("event", format!("{op:?} logged {got:?}, expected {want:?}; {}", log()));
                    }
                    for e in &got {
                        let ok = match e { Ev::Created(c) => replayed.insert(*c), Ev::Removed(c) => replayed.remove(c), Ev::Changed(c) => replayed.contains(c) };
                        if !ok { return violation("replay", format!("{e:?} does not fit the log before it; {}", log())); }
                        o.count(match e { Ev::Created(_) => "ChunkCreated events", Ev::Removed(_) => "ChunkRemoved events", Ev::Changed(_) => "ChunkChanged events" }, 1);
                    }
                    if got.is_empty() { o.count("silent operations", 1); }
                    if step % 5 == 0 || step + 1 == n {
                        compare_chunks(&t, &Model { chunks: replayed.clone(), ..Default::default() }, &chunks, &log, o)?;
                        if replayed != m.chunks { return violation("replay-chunks", log()); }
                    }
                }
            }
            if events && !drained { // the whole log again, none lost or rewritten
                let mut set = BTreeSet::new();
                for e in &t.events.events { match ev(e) { Ev::Created(c) => { set.insert(c); } Ev::Removed(c) => { set.remove(&c); } _ => {} } }
                if set != m.chunks { return violation("replay-chunks", format!("replaying the whole log gives chunks {set:?}, expected {:?}; {ops:?}", m.chunks)); }
            }
            o.nontrivial();
            for op in &ops { match op { Op::Set(p, t) => o.fp((0, p, t)), Op::Remove(p) => o.fp((1, p)), Op::Read(p) => o.fp((2, p)), Op::Query(x, _) => o.fp((3, x.to_bits())) } }
            o.count("operations replayed against the model", ops.len() as u64);
            o.class(format!("{} removes {removes} chunks {} empty-at-end {}", w.kind, m.chunks.len().min(9), m.chunks.is_empty()));
            o.sample(|| format!("{w:?} {:?}", &ops[..ops.len().min(12)]));
            Ok(())
        });
    }
    // fill a chunk completely, then empty it in random order
    ctx.stream(&format!("{} full chunk filled and emptied", if events { "event" } else { "map" }), ctx.scale(300), |r, o, _| {
        let c = (r.int(-4, 4) as i32, r.int(-4, 4) as i32);
        let mut ps: Vec<XY> = (0..256).map(|i| (c.0 * 16 + i % 16, c.1 * 16 + i / 16)).collect();
        let (mut t, mut m) = (Tilemap::default(), Model::default());
        let shuffle = |r: &mut Rng, ps: &mut Vec<XY>| for i in (1..ps.len()).rev() { ps.swap(i, r.below(i + 1)) };
        shuffle(r, &mut ps);
        let order = ps.clone();
        let mut want = vec![];
        for p in &ps { let x = 1 + r.below(255) as u8; want.extend(apply(&mut t, &mut m, Op::Set(*p, x))); }
        let log = || format!("chunk {c:?} filled in order {order:?}");
        let mut border = vec![];
        for i in -1..17 { for (x, y) in [(i, -1), (i, 16), (-1, i), (16, i)] { border.push((c.0 * 16 + x, c.1 * 16 + y)); } }
        if !events { compare_tiles(&t, &m, &ps, &log, o)?; compare_tiles(&t, &m, &border, &log, o)?; }
        shuffle(r, &mut ps);
        for (i, p) in ps.iter().enumerate() {
            let use_set = r.chance(0.3) && i < 200;
            want.extend(apply(&mut t, &mut m, if use_set { Op::Set(*p, 0) } else { Op::Remove(*p) }));
            if !events && i % 16 == 0 { compare_tiles(&t, &m, &order, &log, o)?; compare_tiles(&t, &m, &border, &log, o)?; }
            let e = t.get_chunk(&vv(c)).is_some();
            if events && e != m.chunks.contains(&c) { return violation("chunk", format!("after removing {} tiles chunk exists={e}; {}", i + 1, log())); }
        }
        if events {
            let got: Vec<Ev> = t.events.events.iter().map(ev).collect();
            if got != want { return violation("event", format!("log {got:?}, expected {want:?}; {}", log())); }
        }
        o.fp(order);
        o.nontrivial();
        o.class(format!("full {c:?}"));
        Ok(())
    });
}
/// Positions in very many chunks: a block, a long row, a diagonal, scattered anywhere.
pub fn many_chunks(r: &mut Rng, n: usize) -> (Vec<XY>, &'static str) {
    let c = |r: &mut Rng| (r.int(-100_000_000, 100_000_000) as i32, r.int(-100_000_000, 100_000_000) as i32);
    let ((ox, oy), side) = (if r.chance(0.5) { (0, 0) } else { c(r) }, (n as f64).sqrt() as i32 + 1);
    let kind = r.below(5);
    let v = (0..n as i32).map(|i| {
        let (l, k) = ((r.below(16) as i32, r.below(16) as i32), match kind {
            0 => (i % side - side / 2, i / side - side / 2),
            1 => if ox & 1 == 0 { (i - n as i32 / 2, 0) } else { (0, i - n as i32 / 2) },
            2 => (i - n as i32 / 2, i - n as i32 / 2),
            _ => (r.int(-0x7ff_ffff, 0x7ff_ffff) as i32, r.int(-0x7ff_ffff, 0x7ff_ffff) as i32),
        });
        if kind < 3 { (16 * (ox / 16 + k.0) + l.0, 16 * (oy / 16 + k.1) + l.1) } else { (16 * k.0 + l.0, 16 * k.1 + l.1) }
    }).collect();
    (v, ["block", "row", "diagonal", "scattered", "scattered"][kind])
}
fn crowds(ctx: &Ctx, events: bool) {
    ctx.stream(&format!("{} very many chunks", if events { "event" } else { "map" }), ctx.scale(12), |r, o, _| {
        let n = r.log(300., 20_000.) as usize;
        let (ps, kind) = many_chunks(r, n);
        let (mut t, mut m) = (Tilemap::default(), Model::default());
        let log = || format!("{n} positions, {kind}, first {:?}", &ps[..4]);
        let mut want: Vec<Ev> = vec![];
        for p in &ps {
            let x = if r.chance(0.1) { 0 } else { 1 + r.below(255) as u8 };
            want.extend(apply(&mut t, &mut m, Op::Set(*p, x)));
            let q = r.pick(&ps);
            if !events { compare_tiles(&t, &m, &[*p, q], &log, o)?; }
        }
        let all: BTreeSet<XY> = m.chunks.clone();
        if events { compare_chunks(&t, &m, &all, &log, o)? } else { compare_tiles(&t, &m, &ps, &log, o)? }
        let full = all.len() as u64;
        for p in &ps {
            if r.chance(0.5) { want.extend(apply(&mut t, &mut m, Op::Remove(*p))); } else if r.chance(0.2) { let x = gen_tile(r); want.extend(apply(&mut t, &mut m, Op::Set(*p, x))); }
        }
        if events {
            compare_chunks(&t, &m, &all, &log, o)?;
            let got: Vec<Ev> = t.events.events.iter().map(ev).collect();
            if got != want {
                let k = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
                return violation("event", format!("event {k} is {:?}, expected {:?} ({} and {} events); {}", got.get(k), want.get(k), got.len(), want.len(), log()));
            }
            o.count("events of crowded maps compared", got.len() as u64);
        } else { compare_tiles(&t, &m, &ps, &log, o)?; }
        o.fp(&ps);
        o.nontrivial();
        o.max("chunks in one map", full as f64);
        o.count("operations replayed against the model", 2 * n as u64);
        o.class(format!("crowd {kind} 2^{}", full.ilog2()));
        o.sample(log);
        Ok(())
    });
}
pub fn c19(ctx: &Ctx) { histories(ctx, false); crowds(ctx, false) }
pub fn c20(ctx: &Ctx) { histories(ctx, true); crowds(ctx, true) }

// ------------------------------------------------------------------------------------------ C21

fn gen_tile_pos(r: &mut Rng) -> XY {
    let c = |r: &mut Rng| match r.below(6) {
        0 => r.int(-40, 40) as i32, 1 => 16 * r.int(-100, 100) as i32 - r.below(2) as i32, 2 => i32::MIN + r.below(20) as i32, 3 => i32::MAX - r.below(20) as i32, 4 => r.u64() as i32, _ => r.int(-10000, 10000) as i32 };
    (c(r), c(r))
}
/// tiles that may be nearest to a coordinate, allowing for rounding at the border
fn nearest(x: f64, tol: f64) -> (i32, i32) { ((x - tol).round_ties_up_low(), (x + tol).round_ties_up_high()) }
trait Near { fn round_ties_up_low(self) -> i32; fn round_ties_up_high(self) -> i32; }
impl Near for f64 {
    fn round_ties_up_low(self) -> i32 { (self - 0.5).ceil() as i32 }
    fn round_ties_up_high(self) -> i32 { (self + 0.5).floor() as i32 }
}
fn gen_world(r: &mut Rng) -> f32 {
    match r.below(6) {
        0 => r.int(-40, 40) as f32,
        1 => r.int(-40, 40) as f32 + 0.5,
        2 => (r.int(-100, 100) as f64 + 0.5 + r.sign() * r.log(1e-6, 1e-1)) as f32,
        3 => r.range(-1e6, 1e6) as f32,
        4 => (r.sign() * r.log(1e-6, 1.0)) as f32,
        _ => r.range(-60., 60.) as f32,
    }
}
pub fn c21(ctx: &Ctx) {
    ctx.stream("tile to chunk", ctx.scale(600_000), |r, o, _| {
        let p = gen_tile_pos(r);
        let t = Tilemap::default();
        let (c, l) = t.tile_to_chunk_and_local_pos(&vv(p));
        let c2 = t.tile_to_chunk_pos(&vv(p));
        o.fp(p);
        o.nontrivial();
        let d = || format!("tile {p:?}: chunk {c:?} local {l:?} / {c2:?}");
        if xy(c) != xy(c2) { return violation("chunk-differs", d()); }
        if !(0..16).contains(&l.x()) || !(0..16).contains(&l.y()) { return violation("local-range", d()); }
        let back = (16 * c.x() as i64 + l.x() as i64, 16 * c.y() as i64 + l.y() as i64);
        if back != (p.0 as i64, p.1 as i64) { return violation("decompose", d()); }
        o.count("decompositions checked", 1);
        o.class(format!("local {} {} {} {}", l.x(), l.y(), p.0 < 0, p.1 < 0));
        o.sample(d);
        Ok(())
    });
    ctx.stream("cells of chunks", ctx.scale(60_000), |r, o, _| {
        let mut t = Tilemap::default();
        let base = gen_tile_pos(r);
        let ps: Vec<(XY, u8)> = (0..1 + r.below(6)).map(|_| ((base.0.saturating_add(r.int(-9, 9) as i32), base.1.saturating_add(r.int(-9, 9) as i32)), gen_tile(r))).collect();
        let mut m = Model::default();
        for (p, x) in &ps { t.set_tile(vv(*p), *x); m.set(*p, *x); o.fp((p, x)); }
        o.nontrivial();
        for (p, _) in &ps {
            let (c, l) = (chunk_of(*p), local_of(*p));
            let d = || format!("tiles {ps:?}, tile {p:?} chunk {c:?}");
            let Some(ch) = t.get_chunk(&vv(c)) else { return violation("missing-chunk", d()) };
            // exactly the tiles of this chunk, cell by cell
            for y in 0..16 { for x in 0..16 {
                let got = ch.array2d.get(vv((x, y))).copied();
                let want = m.get(((c.0 as i64 * 16 + x as i64) as i32, (c.1 as i64 * 16 + y as i64) as i32));
                if got != Some(want) { return violation("cell", format!("cell ({x},{y}) holds {got:?}, tile is {want}; {}", d())); }
            } }
            if ch.array2d.width() != 16 || ch.array2d.height() != 16 { return violation("chunk-size", d()); }
            if ch.array2d.get(vv(l)).copied() != Some(m.get(*p)) { return violation("cell", d()); }
            o.count("cells compared", 256);
        }
        o.class(format!("cells {}", m.chunks.len()));
        Ok(())
    });
    ctx.stream("world to tile", ctx.scale(600_000), |r, o, _| {
        let t = Tilemap::default();
        let w = Vec2::new(gen_world(r), gen_world(r));
        let got = xy(t.world_to_tile_pos(&w));
        o.fpf(&[w.x, w.y]);
        o.nontrivial();
        for (n, g, x) in [("x", got.0, w.x), ("y", got.1, w.y)] {
            let d = (g as f64 - x as f64).abs();
            if !(d <= 0.5) { return violation("nearest", format!("world position {w:?} maps to tile {got:?}, which is {d} away on {n}")); }
        }
        o.count("world positions mapped", 1);
        let lim = 1 << 24;
        let p = (r.int(-lim, lim) as i32, if r.chance(0.5) { r.int(-100, 100) } else { r.int(-lim, lim) } as i32);
        let c = t.tile_to_world_pos(&vv(p));
        if (c.x as f64, c.y as f64) != (p.0 as f64, p.1 as f64) { return violation("centre", format!("tile {p:?} has centre {c:?}")); }
        if xy(t.world_to_tile_pos(&c)) != p { return violation("round-trip", format!("tile {p:?} -> {c:?} -> {:?}", xy(t.world_to_tile_pos(&c)))); }
        // anywhere strictly inside of the tile maps back to it
        if p.0.abs() < 100_000 && p.1.abs() < 100_000 {
            let q = Vec2::new((p.0 as f64 + r.range(-0.48, 0.48)) as f32, (p.1 as f64 + r.range(-0.48, 0.48)) as f32);
            if xy(t.world_to_tile_pos(&q)) != p { return violation("inside", format!("{q:?} lies in tile {p:?} but maps to {:?}", xy(t.world_to_tile_pos(&q)))); }
        }
        o.class(format!("frac {} {} neg {} {}", ((w.x - w.x.floor()) * 8.0) as i32, ((w.y - w.y.floor()) * 8.0) as i32, w.x < 0., w.y < 0.));
        o.sample(|| format!("{w:?} -> {got:?}"));
        Ok(())
    });
    ctx.stream("quantize", ctx.scale(600_000), |r, o, _| {
        let t = Tilemap::default();
        let w = Vec2::new(gen_world(r), gen_world(r));
        let (hx, hy) = (r.log(1e-3, 30.) as f32, r.log(1e-3, 30.) as f32);
        let h = Vec2::new(r.pick(&[0.0, 0.5, 1.0, 0.25, hx]), r.pick(&[0.0, 0.5, 1.5, 0.3, hy]));
        let q = t.quantize(&Box2d::new(h), &w);
        o.fpf(&[w.x, w.y, h.x, h.y]);
        o.nontrivial();
        for (n, got, at) in [("min x", q.min.x(), w.x as f64 - h.x as f64), ("min y", q.min.y(), w.y as f64 - h.y as f64), ("max x", q.max.x(), w.x as f64 + h.x as f64), ("max y", q.max.y(), w.y as f64 + h.y as f64)] {
            let (lo, hi) = nearest(at, 2.4e-7 * (w.x.abs().max(w.y.abs()) as f64 + h.x.max(h.y) as f64));
            if got < lo || got > hi { return violation("quantize", format!("{n} is {got}, expected {lo}..={hi}; box {h:?} at {w:?} -> {q:?}")); }
            o.count("corners compared", 1);
        }
        o.class(format!("size {} {}", q.max.x() - q.min.x(), q.max.y() - q.min.y()));
        Ok(())
    });
}

// ------------------------------------------------------------------------------------------ C23

struct Level { t: Tilemap, solid: BTreeSet<XY> }
fn gen_level(r: &mut Rng) -> Level {
    let mut t = Tilemap::default();
    let mut solid = BTreeSet::new();
    let off = (r.pick(&[0, 0, 14, -16, -3, 200]), r.pick(&[0, 0, 14, -16, -3, -200]));
    let put = |t: &mut Tilemap, s: &mut BTreeSet<XY>, p: XY, x: u8| { let q = (p.0 + off.0, p.1 + off.1); t.set_tile(vv(q), x); if x > 0 { s.insert(q); } else { s.remove(&q); } };
    match r.below(5) {
        0 => put(&mut t, &mut solid, (0, 0), 1 + r.below(255) as u8),
        1 => { for x in -3..4 { put(&mut t, &mut solid, (x, 0), 1) } }
        2 => { for x in -3..4 { put(&mut t, &mut solid, (x, 0), 1) } for y in -3..4 { put(&mut t, &mut solid, (0, y), 255) } }
        3 => { let d = r.pick(&[0.1, 0.3, 0.6]); for x in -3..4 { for y in -3..4 { if r.chance(d) { put(&mut t, &mut solid, (x, y), gen_tile(r)) } } } }
        _ => { for _ in 0..6 { let p = (r.int(-3, 3) as i32, r.int(-3, 3) as i32); put(&mut t, &mut solid, p, gen_tile(r)) }
               let p = (r.int(-3, 3) as i32, r.int(-3, 3) as i32); t.remove_tile(vv((p.0 + off.0, p.1 + off.1))); solid.remove(&(p.0 + off.0, p.1 + off.1)); }
    }
    Level { t, solid }
}
fn centre(l: &Level) -> XY { if l.solid.is_empty() { (0, 0) } else { let n = l.solid.len(); *l.solid.iter().nth(n / 2).unwrap() } }

#[derive(Clone, Copy, Debug)]
enum Actor { Ball(f32), Box(f32, f32) }
impl Actor {
    fn cvx(&self) -> Convex { match self { Actor::Ball(r) => Convex { points: vec![p(0., 0.)], radius: *r as f64 },
        Actor::Box(x, y) => { let (x, y) = (*x as f64, *y as f64); Convex { points: vec![p(x, y), p(-x, y), p(-x, -y), p(x, -y)], radius: 0. } } } }
    fn half(&self) -> (f64, f64) { match self { Actor::Ball(r) => (*r as f64, *r as f64), Actor::Box(x, y) => (*x as f64, *y as f64) } }
    fn resolve(&self, t: &Tilemap, pos: Vec2, dir: Vec2) -> Vec2 {
        match self { Actor::Ball(r) => t.simple_resolve_ball(&Ball::with_radius(*r), pos, &dir), Actor::Box(x, y) => t.simple_resolve_box(&Box2d::with_halfdims(*x, *y), pos, &dir) }
    }
}
enum Step { Done(P, f64, u32), Undecided }

/// Replays the documented resolution in f64; gives up where rounding or the 1% could change a decision.
fn reference(l: &Level, a: Actor, pos: P, flip: (bool, bool)) -> Step {
    let (hx, hy) = a.half();
    let rng = |c: f64, h: f64| (nearest(c - h, 1e-6 * (c.abs() + h)), nearest(c + h, 1e-6 * (c.abs() + h)));
    let (x, y) = (rng(pos.x, hx), rng(pos.y, hy));
    let (x0, x1, y0, y1) = (x.0 .0, x.1 .1, y.0 .0, y.1 .1); // tiles at the very border touch at most
    let mut xs: Vec<i32> = (x0..=x1).collect();
    let mut ys: Vec<i32> = (y0..=y1).collect();
    if flip.0 { xs.reverse() }
    if flip.1 { ys.reverse() }
    let body = difference(&a.cvx(), &Actor::Box(0.5, 0.5).cvx());
    let base = 2e-5 * (1.0 + hx + hy + pos.len());
    let mut q = pos;
    let mut unsure = 0.0f64;
    let mut contacts = 0;
    for ty in &ys { for tx in &xs {
        if !l.solid.contains(&(*tx, *ty)) { continue; }
        let rel = q - p(*tx as f64, *ty as f64); // a at rel, tile at 0: overlap iff -rel inside of A-B
        let sd = body.sd(-rel);
        let tol = base + unsure;
        if sd.abs() <= tol { return Step::Undecided; }
        if sd > 0.0 { continue; }
        // outside of the rectangle of the original position? then it is not visited
        let on_border = *tx < x.0 .1 || *tx > x.1 .0 || *ty < y.0 .1 || *ty > y.1 .0;
        if on_border { return Step::Undecided; }
        // minimal displacement and whether it is unique
        let Some((d, second)) = min_out(&a, rel) else { return Step::Undecided };
        let depth = d.len();
        if second <= depth * 1.025 + 2.0 * tol { return Step::Undecided; }
        q = q + d;
        unsure += 0.02 * depth + tol;
        if let Actor::Ball(r) = a {
            // every direction whose way out is within the 1% is a correct answer
            let r = r as f64;
            let mut spread = 0.0f64;
            for k in 0..720 {
                let n = { let t = k as f64 * std::f64::consts::TAU / 720.0; p(t.cos(), t.sin()) };
                let h = r + 0.5 * (n.x.abs() + n.y.abs()) - rel.dot(n);
                if h <= 1.012 * depth + tol { spread = spread.max((n * h - d).len()); }
            }
            if spread > 0.3 * depth { return Step::Undecided; }
            unsure += spread + 0.01 * depth;
        }
        contacts += 1;
    } }
    Step::Done(q, unsure + base, contacts)
}
/// Minimal displacement out of the unit tile at the origin, and the length of the best one in another direction.
fn min_out(a: &Actor, rel: P) -> Option<(P, f64)> {
    match a {
        Actor::Box(hx, hy) => {
            let (x, y) = (*hx as f64 + 0.5, *hy as f64 + 0.5);
            let mut c = vec![p(x - rel.x, 0.), p(-x - rel.x, 0.), p(0., y - rel.y), p(0., -y - rel.y)];
            c.sort_by(|a, b| a.len().partial_cmp(&b.len()).unwrap());
            Some((c[0], c[1].len()))
        }
        Actor::Ball(r) => {
            let r = *r as f64;
            let q = p(rel.x.clamp(-0.5, 0.5), rel.y.clamp(-0.5, 0.5));
            let out = rel - q;
            let l = out.len();
            if l > 1e-4 { // centre outside of the tile: straight out, unique; corners are smooth
                // the 1% criterion may stop on a neighbouring direction, covered by the uncertainty
                return Some((out * ((r - l) / l), f64::INFINITY));
            }
            let mut c = vec![p(0.5 + r - rel.x, 0.), p(-0.5 - r - rel.x, 0.), p(0., 0.5 + r - rel.y), p(0., -0.5 - r - rel.y)];
            c.sort_by(|a, b| a.len().partial_cmp(&b.len()).unwrap());
            Some((c[0], c[1].len()))
        }
    }
}

pub fn c23(ctx: &Ctx) {
    ctx.stream("point contact", ctx.scale(200_000), |r, o, _| {
        let l = gen_level(r);
        let c = centre(&l);
        let w = Vec2::new(c.0 as f32 + gen_offset(r), c.1 as f32 + gen_offset(r));
        o.fpf(&[w.x, w.y]); o.fp(l.solid.len()); o.fp(c);
        let (x, y) = (nearest(w.x as f64, 1e-9), nearest(w.y as f64, 1e-9));
        if x.0 != x.1 || y.0 != y.1 { o.count("undecided: two tiles equally near", 1); return Ok(()); }
        o.nontrivial();
        let want = l.solid.contains(&(x.0, y.0));
        let full = Transform2d { pos: w, rot: Rotor2d::from_angle(r.range(-3., 3.) as f32), scale: Vec2::splat(r.log(0.1, 10.) as f32) };
        for (n, got) in [("vector", l.t.collides_rel(&Point, &w)), ("translation", l.t.collides_rel(&Point, &Translate2d::from(w))),
            ("axis", l.t.collides_rel(&Point, &AxisTransform2d::new(w, 2.0))), ("full", l.t.collides_rel(&Point, &full))] {
            if got != want { return violation("point", format!("point at {w:?} ({n}) collides={got}, tile ({}, {}) solid={want}", x.0, y.0)); }
            o.count("point contacts decided", 1);
        }
        // the map placed in the world
        let th = r.range(-3., 3.) as f32;
        let s = r.log(0.2, 5.) as f32;
        let mt = Transform2d { pos: Vec2::new(r.range(-20., 20.) as f32, r.range(-20., 20.) as f32), rot: Rotor2d::from_angle(th), scale: Vec2::splat(s) };
        let sim = Sim { pos: p(mt.pos.x as f64, mt.pos.y as f64), c: (th as f64).cos(), s: (th as f64).sin(), scale: s as f64 };
        let at = sim.apply(p(w.x as f64, w.y as f64));
        let pt = Transform2d::from_translation(Vec2::new(at.x as f32, at.y as f32)).with_scale(Vec2::splat(r.log(0.2, 5.) as f32));
        let back = { let q = p(pt.pos.x as f64, pt.pos.y as f64) - sim.pos; sim.unrotate(q) * (1.0 / sim.scale) };
        let tol = 2e-6 * (at.len() + sim.pos.len() + 1.0) / sim.scale + 2e-6 * back.len();
        let (x, y) = (nearest(back.x, tol), nearest(back.y, tol));
        if x.0 == x.1 && y.0 == y.1 {
            let want = l.solid.contains(&(x.0, y.0));
            for (n, got) in [("colliders", Collider2d::new(&l.t, &mt).collides(Collider2d::new(&Point, &pt))), ("tuples", (&l.t, &mt).collides((&Point, &pt)))] {
                if got != want { return violation("placed-point", format!("placed map, {n}: point at {back:?} of the map collides={got}, tile solid={want}")); }
                o.count("point contacts decided on a placed map", 1);
            }
        }
        o.class(format!("contact {want} {}", l.solid.len().min(20)));
        o.sample(|| format!("{w:?} -> {want}"));
        Ok(())
    });
    for name in ["ball", "box"] {
        ctx.stream(&format!("resolve {name}"), ctx.scale(250_000), |r, o, _| {
            let l = gen_level(r);
            let c = centre(&l);
            let size = |r: &mut Rng| match r.below(4) { 0 => 0.5f32, 1 => r.range(0.1, 0.45) as f32, 2 => r.range(0.45, 1.6) as f32, _ => r.pick(&[0.25f32, 0.4, 1.0]) };
            // now and then a body that spans many tiles and chunks
            let big = r.chance(0.003);
            let long = |r: &mut Rng| r.log(2., 150.) as f32;
            let a = match (name, big) {
                ("ball", true) => Actor::Ball(long(r)),
                ("ball", _) => Actor::Ball(size(r)),
                (_, true) => match r.below(4) {
                    0 => Actor::Box(long(r), long(r)),
                    1 => { let x = r.log(100., 3000.) as f32; Actor::Box(x, size(r)) }
                    2 => { let y = r.log(100., 3000.) as f32; Actor::Box(size(r), y) }
                    _ => if r.chance(0.5) { Actor::Box(long(r), size(r)) } else { Actor::Box(size(r), long(r)) },
                },
                _ => Actor::Box(size(r), size(r)),
            };
            if big { o.count("bodies that span many tiles", 1); }
            // near the surface of a tile, or anywhere
            let (hx, hy) = a.half();
            let w = if r.chance(0.7) {
                let depth = r.log(1e-3, 0.3);
                let s = r.sign();
                let sideways = r.chance(0.5);
                let along = if big { r.range(-1., 1.) * if sideways { hy + 0.5 } else { hx + 0.5 } } else { r.range(-1.2, 1.2) };
                let q = if sideways { p(s * (0.5 + hx - depth), along) } else { p(along, s * (0.5 + hy - depth)) };
                Vec2::new((c.0 as f64 + q.x) as f32, (c.1 as f64 + q.y) as f32)
            } else { Vec2::new(c.0 as f32 + gen_offset(r), c.1 as f32 + gen_offset(r)) };
            let d1 = |r: &mut Rng| r.pick(&[0.0f32, -0.0, 1.0, -1.0, 0.001, -0.001]);
            let dir = Vec2::new(d1(r), d1(r));
            o.fpf(&[w.x, w.y, dir.x, dir.y, hx as f32, hy as f32]); o.fp(l.solid.iter().take(12).collect::<Vec<_>>());
            let got = a.resolve(&l.t, w, dir);
            let d = || format!("{a:?} at {w:?} moving {dir:?}, solid tiles {:?} -> {got:?}", l.solid);
            let w64 = p(w.x as f64, w.y as f64);
            let flips = (dir.x < 0.0, dir.y < 0.0);
            if !got.is_finite() { return violation("not-finite", d()); }
            // clear of every tile: unchanged
            let body = difference(&a.cvx(), &Actor::Box(0.5, 0.5).cvx());
            let sds: Vec<f64> = l.solid.iter().map(|t| body.sd(-(w64 - p(t.0 as f64, t.1 as f64)))).collect();
            let tol = 2e-5 * (1.0 + hx + hy + w64.len());
            if sds.iter().all(|s| *s > tol) {
                o.nontrivial();
                if got != w { return violation("moved-free", d()); }
                o.count("free positions left unchanged", 1);
                o.class(format!("{name} free"));
                return Ok(());
            }
            // a single overlapped tile and no other close enough to matter: minimal and out of it
            let (mut lone, mut other) = (f64::INFINITY, f64::INFINITY);
            for s in &sds { if *s < lone { other = lone; lone = *s } else if *s < other { other = *s } }
            if lone < -tol && other > 1.03 * -lone + tol {
                let k = sds.iter().position(|s| *s == lone).unwrap();
                let t = *l.solid.iter().nth(k).unwrap();
                let g = p(got.x as f64, got.y as f64);
                let allow = 0.0104 * -lone + tol;
                let (moved, gap) = ((g - w64).len(), body.sd(-(g - p(t.0 as f64, t.1 as f64))));
                if !((moved + lone).abs() <= allow) { return violation("single-length", format!("moved by {moved}, depth {}; {}", -lone, d())); }
                if !(gap.abs() <= allow) { return violation("single-touch", format!("signed distance {gap} left, depth {}; {}", -lone, d())); }
                o.nontrivial();
                o.count("lone contacts checked for minimal displacement", 1);
                o.class(format!("{name} lone contact"));
            }
            match reference(&l, a, w64, flips) {
                Step::Undecided => { o.count("undecided: a contact, direction or order hinges on rounding", 1); Ok(()) }
                Step::Done(want, unsure, contacts) => {
                    o.nontrivial();
                    let e = (p(got.x as f64, got.y as f64) - want).len();
                    if !(e <= unsure) { return violation(if contacts == 1 { "single-contact" } else { "contacts" }, format!("expected ({}, {}) within {unsure}, {contacts} contacts; {}", want.x, want.y, d())); }
                    o.count(&format!("resolutions with {contacts} contacts"), 1);
                    o.max("worst error relative to the allowance", e / unsure);
                    // does the order matter here?
                    for (n, f) in [("x", (!flips.0, flips.1)), ("y", (flips.0, !flips.1))] {
                        if let Step::Done(other, u2, _) = reference(&l, a, w64, f) {
                            if (other - want).len() > unsure + u2 { o.count(&format!("resolutions that depend on the {n} order"), 1); }
                        }
                    }
                    o.class(format!("{name} contacts {contacts} flips {flips:?}"));
                    o.sample(d);
                    Ok(())
                }
            }
        });
    }
}
fn gen_offset(r: &mut Rng) -> f32 { match r.below(4) { 0 => r.int(-3, 3) as f32, 1 => (r.int(-3, 3) as f64 + 0.5 + r.sign() * r.log(1e-5, 0.2)) as f32, _ => r.range(-4., 4.) as f32 } }

// ------------------------------------------------------------------------------------------ C31

/// any finite world coordinate: everyday ones, around the ends of the range of tiles, far beyond it, any bit pattern
fn gen_anywhere(r: &mut Rng) -> f32 {
    match r.below(8) {
        0 | 1 => gen_world(r),
        2 => { let x = r.pick(&[2147483648.0f32, 2147483520.0, 16777216.0, 8388608.5, 4194304.25, 65536.5, 32768.0, 32767.5, 127.5, 255.5]); (x + r.int(-3, 3) as f32) * r.sign() as f32 }
        3 => (r.sign() * r.log(1e9, 1e38)) as f32,
        4 => r.pick(&[f32::MAX, f32::MIN, f32::MIN_POSITIVE, -f32::MIN_POSITIVE, 0.0, -0.0, 1e-45, -1e-45]),
        5 => (r.sign() * r.log(1.0, 4e9)) as f32,
        _ => loop { let x = f32::from_bits(r.u64() as u32); if x.is_finite() { break x } },
    }
}
/// tiles nearest to a coordinate, allowing for rounding at the border, within the range of tiles
fn nearest_clamped(x: f64, tol: f64) -> (i32, i32) { (((x - tol - 0.5).ceil()) as i32, ((x + tol + 0.5).floor()) as i32) }

pub fn c31(ctx: &Ctx) {
    ctx.stream("any world position", ctx.scale(500_000), |r, o, _| {
        let w = Vec2::new(gen_anywhere(r), if r.chance(0.3) { gen_world(r) } else { gen_anywhere(r) });
        let mut t = Tilemap::default();
        o.fpf(&[w.x, w.y]);
        o.nontrivial();
        let got = xy(t.world_to_tile_pos(&w));
        let (x, y) = (nearest_clamped(w.x as f64, 0.), nearest_clamped(w.y as f64, 0.));
        let d = |t: &Tilemap| format!("world position {w:?} (bits {:08x} {:08x}) maps to tile {got:?}, nearest {x:?} {y:?}; the tile there is {}", w.x.to_bits(), w.y.to_bits(), t.get_tile(vv(got)));
        if got.0 < x.0 || got.0 > x.1 || got.1 < y.0 || got.1 > y.1 { return violation("nearest", d(&t)); }
        o.count("world positions mapped", 1);
        let full = Transform2d { pos: w, rot: Rotor2d::from_angle(r.range(-3., 3.) as f32), scale: Vec2::splat(r.log(0.1, 10.) as f32) };
        let contact = |t: &Tilemap| [t.collides_rel(&Point, &w), t.collides_rel(&Point, &Translate2d::from(w)), t.collides_rel(&Point, &AxisTransform2d::new(w, 2.0)), t.collides_rel(&Point, &full)];
        // contact follows the content of that tile, through any change of it
        if contact(&t) != [false; 4] { return violation("empty-contact", d(&t)); }
        let neighbour = (got.0.wrapping_add(r.int(-1, 1) as i32), got.1.wrapping_add(r.pick(&[-1, 1])));
        t.set_tile(vv(neighbour), gen_tile(r));
        if contact(&t) != [false; 4] { return violation("neighbour-contact", d(&t)); }
        let k = 1 + r.below(255) as u8;
        t.set_tile(vv(got), k);
        if t.get_tile(vv(got)) != k { return violation("read", d(&t)); }
        if contact(&t) != [true; 4] { return violation("contact", d(&t)); }
        if r.chance(0.5) { t.remove_tile(vv(got)) } else { t.set_tile(vv(got), 0) }
        if t.get_tile(vv(got)) != 0 || contact(&t) != [false; 4] { return violation("after-removal", d(&t)); }
        o.count("contacts decided", 16);
        let (c, l) = t.tile_to_chunk_and_local_pos(&vv(got));
        if (16 * c.x() as i64 + l.x() as i64, 16 * c.y() as i64 + l.y() as i64) != (got.0 as i64, got.1 as i64) { return violation("decompose", d(&t)); }
        let back = t.tile_to_world_pos(&vv(got));
        if !((back.x as f64 - got.0 as f64).abs() <= 128.0 && (back.y as f64 - got.1 as f64).abs() <= 128.0) { return violation("centre", format!("{}, centre {back:?}", d(&t))); }
        o.class(format!("{} {} {} {}", (w.x.abs().log2() as i32) / 8, (w.y.abs().log2() as i32) / 8, w.x < 0., w.y < 0.));
        o.sample(|| d(&t));
        Ok(())
    });
    ctx.stream("any box", ctx.scale(500_000), |r, o, _| {
        let t = Tilemap::default();
        let w = Vec2::new(gen_anywhere(r), gen_anywhere(r));
        let h = Vec2::new(gen_anywhere(r).abs(), if r.chance(0.5) { r.log(1e-3, 30.) as f32 } else { gen_anywhere(r).abs() });
        // sums beyond the range of f32 are not numbers a box can have
        if !(w + h).is_finite() || !(w - h).is_finite() { o.count("undecided: corners are not finite", 1); let _ = t.quantize(&Box2d::new(h), &w); return Ok(()); }
        o.fpf(&[w.x, w.y, h.x, h.y]);
        o.nontrivial();
        let q = t.quantize(&Box2d::new(h), &w);
        for (n, got, at, m) in [("min x", q.min.x(), w.x as f64 - h.x as f64, w.x.abs().max(h.x)), ("min y", q.min.y(), w.y as f64 - h.y as f64, w.y.abs().max(h.y)),
            ("max x", q.max.x(), w.x as f64 + h.x as f64, w.x.abs().max(h.x)), ("max y", q.max.y(), w.y as f64 + h.y as f64, w.y.abs().max(h.y))] {
            let (lo, hi) = nearest_clamped(at, 2.4e-7 * m as f64);
            if got < lo || got > hi { return violation("quantize", format!("{n} is {got}, expected {lo}..={hi}; box {h:?} at {w:?} -> {q:?}")); }
            o.count("corners compared", 1);
        }
        o.class(format!("box {} {}", (w.x.abs().log2() as i32) / 16, (h.x.log2() as i32) / 16));
        Ok(())
    });
    ctx.stream("resolve anywhere", ctx.scale(200_000), |r, o, _| {
        let w = Vec2::new(gen_anywhere(r), if r.chance(0.5) { gen_world(r) } else { gen_anywhere(r) });
        let mut t = Tilemap::default();
        let at = xy(t.world_to_tile_pos(&w));
        let mut solid = vec![];
        for _ in 0..r.below(5) {
            let q = (at.0.saturating_add(r.int(-2, 2) as i32), at.1.saturating_add(r.int(-2, 2) as i32));
            t.set_tile(vv(q), 1 + r.below(255) as u8);
            solid.push(q);
        }
        let ball = r.chance(0.5);
        let s = r.pick(&[0.0f32, 0.1, 0.5, 1.0, 1.5]);
        let a = if ball { Actor::Ball(s) } else { Actor::Box(s, r.pick(&[0.0f32, 0.1, 0.5, 1.0, 1.5])) };
        let dir = Vec2::new(r.pick(&[0.0f32, 1.0, -1.0, 1e30, -1e-30]), r.pick(&[0.0f32, 1.0, -1.0, -1e30, 1e-30]));
        o.fpf(&[w.x, w.y, s, dir.x, dir.y]); o.fp(&solid);
        o.nontrivial();
        let got = a.resolve(&t, w, dir);
        let (hx, hy) = a.half();
        let d = || format!("{a:?} at {w:?} moving {dir:?}, solid tiles {solid:?} -> {got:?}");
        let clear = |x: f64, h: f64, c: i32| (x - c as f64).abs() > h + 0.5 + 1e-4 + 4.8e-7 * (x.abs() + c.unsigned_abs() as f64);
        let free = solid.iter().all(|q| clear(w.x as f64, hx, q.0) || clear(w.y as f64, hy, q.1));
        if free {
            if got.x.to_bits() != w.x.to_bits() || got.y.to_bits() != w.y.to_bits() { return violation("moved-free", d()); }
            o.count("free positions left unchanged", 1);
        } else {
            if !got.is_finite() { return violation("not-finite", d()); }
            o.count("contacts resolved to a finite position", 1);
        }
        o.class(format!("resolve {} {} free {free} {}", if ball { "ball" } else { "box" }, solid.len(), (w.x.abs().log2() as i32) / 8));
        o.sample(d);
        Ok(())
    });
    ctx.stream("not a world position", ctx.scale(30_000), |r, o, _| {
        // infinite and undefined coordinates: answered, and consistently, without a panic
        let odd = |r: &mut Rng| r.pick(&[f32::INFINITY, f32::NEG_INFINITY, f32::NAN, -f32::NAN]);
        let x = odd(r);
        let y = if r.chance(0.5) { odd(r) } else { gen_anywhere(r) };
        let w = if r.chance(0.5) { Vec2::new(x, y) } else { Vec2::new(y, x) };
        let mut t = Tilemap::default();
        let at = t.world_to_tile_pos(&w);
        if t.collides_rel(&Point, &w) { return violation("empty-contact", format!("{w:?} touches an empty map")); }
        t.set_tile(at, 3);
        if !t.collides_rel(&Point, &w) { return violation("contact", format!("{w:?} maps to tile {:?}, which is solid, but does not touch it", xy(at))); }
        o.fpf(&[w.x, w.y]);
        o.nontrivial();
        o.count("odd positions answered", 1);
        o.class(format!("odd {} {}", w.x, if w.y.is_finite() { "finite".into() } else { w.y.to_string() }));
        Ok(())
    });
    // the tilemap as a whole with operations at positions of every magnitude
    ctx.stream("edits anywhere", ctx.scale(20_000), |r, o, _| {
        let mut t = Tilemap::default();
        let mut m = Model::default();
        let mut log = vec![];
        for _ in 0..3 + r.below(30) {
            let w = Vec2::new(gen_anywhere(r), gen_anywhere(r));
            let p = if r.chance(0.6) { xy(t.world_to_tile_pos(&w)) } else if log.is_empty() || r.chance(0.5) { gen_tile_pos(r) } else { log[r.below(log.len())] };
            if r.chance(0.7) { let x = gen_tile(r); t.set_tile(vv(p), x); m.set(p, x); } else { t.remove_tile(vv(p)); m.remove(p); }
            log.push(p);
        }
        for p in &log {
            for q in [*p, (p.0.wrapping_add(1), p.1), (p.0, p.1.wrapping_sub(1)), (p.1, p.0), (p.0.wrapping_neg(), p.1)] {
                if t.get_tile(vv(q)) != m.get(q) { return violation("tile", format!("tile {q:?} is {}, expected {}; edited {log:?}", t.get_tile(vv(q)), m.get(q))); }
            }
            o.count("tiles compared", 5);
        }
        o.fp(&log);
        o.nontrivial();
        o.class(format!("edits {}", log.len() / 4));
        Ok(())
    });
}

// ------------------------------------------------------------------------------------------ C24

pub fn c24(ctx: &Ctx) {
    ctx.stream("iteration", ctx.scale(150_000), |r, o, _| {
        let lo = |r: &mut Rng| match r.below(6) { 0 => 0, 1 => i32::MIN, 2 => i32::MAX - 6, 3 => r.int(-2_000_000_000, 2_000_000_000) as i32, _ => r.int(-20, 20) as i32 };
        let ext = |r: &mut Rng| match r.below(6) { 0 => 0, 1 => -1, 2 => -(1 + r.below(5) as i32), _ => r.below(7) as i32 };
        let (x0, y0) = (lo(r), lo(r));
        let (x1, y1) = (x0.saturating_add(ext(r)), y0.saturating_add(ext(r)));
        o.fp((x0, y0, x1, y1));
        o.nontrivial();
        let rect = || if (x0 ^ y0) & 1 == 0 { Rect2i32::min_max(vv((x0, y0)), vv((x1, y1))) } else { Rect2i32 { min: vv((x0, y0)), max: vv((x1, y1)) } };
        let q = rect();
        let want = |west: bool, south: bool| -> Vec<XY> {
            let mut ys: Vec<i64> = (y0 as i64..=y1 as i64).collect();
            let mut xs: Vec<i64> = (x0 as i64..=x1 as i64).collect();
            if south { ys.reverse() }
            if west { xs.reverse() }
            ys.iter().flat_map(|y| xs.iter().map(move |x| (*x as i32, *y as i32))).collect()
        };
        let cap = want(false, false).len() + 5; // an endless iteration must not hang the monitor
        fn take(it: impl Iterator<Item = V2i32>, cap: usize) -> Vec<XY> { it.take(cap).map(xy).collect() }
        let f = r.log(1e-30, 1e30) as f32;
        let z = r.pick(&[0.0f32, -0.0]);
        let list: Vec<(String, Vec<XY>, (bool, bool))> = vec![
            ("iterate".into(), take(q.iterate(), cap), (false, false)),
            ("north_east".into(), take(q.iterate_north_east(), cap), (false, false)),
            ("north_west".into(), take(q.iterate_north_west(), cap), (true, false)),
            ("south_east".into(), take(q.iterate_south_east(), cap), (false, true)),
            ("south_west".into(), take(q.iterate_south_west(), cap), (true, true)),
            ("boxed 00".into(), take(q.iterate_boxed(false, false), cap), (false, false)),
            ("boxed 10".into(), take(q.iterate_boxed(true, false), cap), (true, false)),
            ("boxed 01".into(), take(q.iterate_boxed(false, true), cap), (false, true)),
            ("boxed 11".into(), take(q.iterate_boxed(true, true), cap), (true, true)),
            ("direction ++".into(), take(q.iterate_with_direction_f32(f, f), cap), (false, false)),
            ("direction -+".into(), take(q.iterate_with_direction_f32(-f, f), cap), (true, false)),
            ("direction +-".into(), take(q.iterate_with_direction_f32(f, -f), cap), (false, true)),
            ("direction --".into(), take(q.iterate_with_direction_f32(-f, -f), cap), (true, true)),
            ("direction 0-".into(), take(q.iterate_with_direction_f32(z, -f), cap), (false, true)),
            ("direction -0".into(), take(q.iterate_with_direction_f32(-f, z), cap), (true, false)),
            ("direction 00".into(), take(q.iterate_with_direction_f32(z, z), cap), (false, false)),
        ];
        for (n, got, (w, s)) in &list {
            let want = want(*w, *s);
            if *got != want { return violation(format!("order/{n}"), format!("{n} over ({x0},{y0})..=({x1},{y1}) visited {got:?}, expected {want:?}")); }
            o.count("iterations compared", 1);
            o.count("cells visited", got.len() as u64);
        }
        // iterating again, after dropping a half-used iterator, starts over
        { let mut it = q.iterate(); it.next(); }
        if take(q.iterate(), cap) != want(false, false) { return violation("restart", format!("({x0},{y0})..=({x1},{y1})")); }
        o.class(format!("{}x{} {}", (x1 as i64 - x0 as i64 + 1).max(0), (y1 as i64 - y0 as i64 + 1).max(0), x0 < 0));
        o.sample(|| format!("({x0},{y0})..=({x1},{y1})"));
        // padding
        let small = |v: i32| v.unsigned_abs() < 1_000_000;
        if small(x0) && small(y0) && small(x1) && small(y1) {
            let (px, py) = (r.int(-3, 50) as i32, r.int(-3, 50) as i32);
            let g = rect().pad(vv((px, py)));
            let got = (xy(g.min), xy(g.max));
            let want = ((x0 - px, y0 - py), (x1 + px, y1 + py));
            if got != want { return violation("pad", format!("padding ({x0},{y0})..=({x1},{y1}) by ({px},{py}) gave {got:?}, expected {want:?}")); }
            o.count("paddings compared", 1);
        }
        Ok(())
    });
    ctx.stream("large rectangles", ctx.scale(200), |r, o, _| {
        let (w, h) = (1 + r.below(120) as i32, 1 + r.below(120) as i32);
        let b = (r.int(-100, 100) as i32, r.int(-100, 100) as i32);
        let q = Rect2i32::min_max(vv(b), vv((b.0 + w - 1, b.1 + h - 1)));
        o.fp((w, h, b));
        o.nontrivial();
        let mut seen = BTreeSet::new();
        let (fx, fy) = (r.chance(0.5), r.chance(0.5));
        let mut n = 0u64;
        for p in q.iterate_boxed(fx, fy).take((w * h) as usize + 5) {
            let p = xy(p);
            n += 1;
            if !seen.insert(p) { return violation("twice", format!("{p:?} visited twice in {w}x{h}")); }
            if p.0 < b.0 || p.1 < b.1 || p.0 >= b.0 + w || p.1 >= b.1 + h { return violation("outside", format!("{p:?} outside of {w}x{h} at {b:?}")); }
        }
        if n != (w * h) as u64 { return violation("count", format!("{n} cells of {w}x{h} visited")); }
        o.count("cells visited", n);
        o.class(format!("large {} {}", w / 30, h / 30));
        Ok(())
    });
    // extreme extents: wide, tall, the whole range of an i32; each visited cell is predicted by arithmetic, in constant memory
    ctx.stream("extreme extents", ctx.scale(24), |r, o, i| {
        let ext = |r: &mut Rng, m: f64| match r.below(5) { 0 => 1 + r.below(3) as i64, 1 => r.pick(&[255i64, 256, 257, 32767, 32768, 32769, 65535, 65536, 65537, 131_073, 1 << 20]), _ => r.log(1., m) as i64 };
        let (w, h) = match i % 4 { 0 => (ext(r, 3e6), 1 + r.below(3) as i64), 1 => (1 + r.below(3) as i64, ext(r, 3e6)), 2 => (ext(r, 3e3), ext(r, 3e3)), _ => (r.pick(&[1i64 << 32, 1 << 31, (1 << 31) + 1, 3_000_000_000, 70_000]), r.pick(&[1i64 << 32, 1 << 31, 3_000_000_000, 70_000])) };
        let low = |r: &mut Rng, n: i64| -> i64 { let top = i32::MAX as i64 - n + 1; match r.below(4) { 0 => i32::MIN as i64, 1 => top, 2 => (-n / 2).clamp(i32::MIN as i64, top), _ => r.int(i32::MIN as i64, top) } };
        let (x0, y0) = (low(r, w), low(r, h));
        let q = Rect2i32::min_max(vv((x0 as i32, y0 as i32)), vv(((x0 + w - 1) as i32, (y0 + h - 1) as i32)));
        let (west, south) = (r.chance(0.5), r.chance(0.5));
        let budget = 4_000_000u64;
        let total = (w as u128 * h as u128).min(u64::MAX as u128) as u64;
        o.fp((w, h, x0, y0, west, south));
        o.nontrivial();
        let mut n = 0u64;
        let it: Box<dyn Iterator<Item = V2i32>> = match r.below(3) {
            0 => q.iterate_boxed(west, south),
            1 => q.iterate_with_direction_f32(if west { -1.0 } else { 1.0 }, if south { -1.0 } else { 1.0 }),
            _ => match (west, south) { (false, false) => Box::new(q.iterate_north_east()), (true, false) => Box::new(q.iterate_north_west()), (false, true) => Box::new(q.iterate_south_east()), _ => Box::new(q.iterate_south_west()) },
        };
        for p in it.take(budget as usize) {
            let (cx, cy) = ((n % w as u64) as i64, (n / w as u64) as i64);
            let want = ((if west { x0 + w - 1 - cx } else { x0 + cx }) as i32, (if south { y0 + h - 1 - cy } else { y0 + cy }) as i32);
            if n >= total || xy(p) != want { return violation("order/extreme", format!("cell number {n} visited of {w}x{h} from ({x0},{y0}), west {west}, south {south}: {:?}, expected {}", xy(p), if n >= total { "the end".into() } else { format!("{want:?}") })); }
            n += 1;
        }
        if n != total.min(budget) { return violation("count/extreme", format!("{n} cells visited of {w}x{h} from ({x0},{y0}), west {west}, south {south}")); }
        o.count("cells visited", n);
        o.count(if total <= budget { "extreme rectangles visited in full" } else { "beginnings of larger rectangles visited" }, 1);
        o.class(format!("extreme 2^{} x 2^{}", w.ilog2(), h.ilog2()));
        Ok(())
    });
}

// ------------------------------------------------------------------------------------------ C22

fn leak(s: String) -> &'static str { Box::leak(s.into_boxed_str()) }
pub struct Scratch(pub String);
impl Scratch {
    pub fn new(tag: &str) -> Scratch {
        let d = std::env::temp_dir().join(format!("auburn-monitors-{}-{tag}", std::process::id()));
        let _ = std::fs::remove_dir_all(&d);
        std::fs::create_dir_all(&d).expect("harness-internal: scratch directory");
        Scratch(d.to_string_lossy().into_owned())
    }
}
impl Drop for Scratch { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); } }
/// one leaked path per worker thread instead of one per case
pub fn thread_path(s: &Scratch, name: &str) -> &'static str {
    use std::cell::RefCell;
    thread_local! { static PATHS: RefCell<BTreeMap<String, &'static str>> = const { RefCell::new(BTreeMap::new()) }; }
    let p = format!("{}/{name}-{:?}.json", s.0, std::thread::current().id());
    PATHS.with(|m| *m.borrow_mut().entry(p.clone()).or_insert_with(|| leak(p)))
}
/// leaked once per thread
fn thread_name(p: String) -> &'static str {
    use std::cell::RefCell;
    thread_local! { static NAMES: RefCell<BTreeMap<String, &'static str>> = const { RefCell::new(BTreeMap::new()) }; }
    NAMES.with(|m| *m.borrow_mut().entry(p.clone()).or_insert_with(|| leak(p)))
}
pub fn gen_map(r: &mut Rng, ops: usize) -> (Tilemap, Model, Window) {
    let w = Window::gen(r);
    let (mut t, mut m) = (Tilemap::default(), Model::default());
    for _ in 0..r.below(ops + 1) { let op = gen_op(r, &w, &m, 0.25); if let Op::Query(..) = op { continue; } apply(&mut t, &mut m, op); }
    (t, m, w)
}
fn same_map(loaded: &Tilemap, m: &Model, w: &Window, what: &str, o: &mut Obs) -> Verdict {
    let log = || format!("{what}: original {m:?}");
    compare_tiles(loaded, m, &w.around(), &log, o).map_err(|v| tag(v, "loaded", what))?;
    let all: Vec<XY> = m.tiles.keys().copied().collect();
    compare_tiles(loaded, m, &all, &log, o).map_err(|v| tag(v, "loaded", what))?;
    let mut cs = w.chunks();
    cs.extend(&m.chunks);
    compare_chunks(loaded, m, &cs, &log, o).map_err(|v| tag(v, "loaded", what))?;
    // cells of chunks too: no stray cell, same size
    for c in &m.chunks {
        let ch = loaded.get_chunk(&vv(*c)).unwrap();
        for y in 0..16 { for x in 0..16 {
            let want = m.get(((c.0 as i64 * 16 + x as i64) as i32, (c.1 as i64 * 16 + y as i64) as i32));
            if ch.array2d.get(vv((x, y))).copied() != Some(want) { return violation("loaded/cell", format!("chunk {c:?} cell ({x},{y}) is {:?}, expected {want}; {}", ch.array2d.get(vv((x, y))), log())); }
        } }
    }
    if !loaded.events.events.is_empty() { return violation("loaded/events", format!("{} events after loading; {}", loaded.events.events.len(), log())); }
    Ok(())
}

pub fn c22(ctx: &Ctx) {
    let scratch = Scratch::new("c22");
    ctx.stream("save and load", ctx.scale(4_000), |r, o, _| {
        let path = thread_path(&scratch, "map");
        let (t, m, w) = gen_map(r, 60);
        for (p, x) in &m.tiles { o.fp((p, x)); }
        o.fp(&m.chunks);
        o.nontrivial();
        // over a longer older file, a shorter one, or none
        match r.below(3) { 0 => { std::fs::write(path, vec![b'7'; 20_000 + r.below(20_000)]).expect("harness-internal") } 1 => { std::fs::write(path, "{").expect("harness-internal") } _ => { let _ = std::fs::remove_file(path); } }
        if let Err(e) = t.save(path) { return violation("save-failed", format!("{e}; {m:?}")); }
        let mut a = match Tilemap::load(path) { Ok(x) => x, Err(e) => return violation("load-failed", format!("{e}; {m:?}")) };
        same_map(&a, &m, &w, "file", o)?;
        // saving does not change the map, and what was loaded saves and loads again
        let log = || "the original after saving".to_string();
        compare_tiles(&t, &m, &w.around(), &log, o)?;
        if let Err(e) = a.save(path) { return violation("save-failed", format!("second save: {e}; {m:?}")); }
        let b = match Tilemap::load(path) { Ok(x) => x, Err(e) => return violation("load-failed", format!("second load: {e}; {m:?}")) };
        same_map(&b, &m, &w, "second file", o)?;
        // serde in memory
        let s = serde_json::to_string(&t).map_err(|e| Violation { sig: "serialize".into(), detail: format!("{e}; {m:?}") })?;
        let c: Tilemap = serde_json::from_str(&s).map_err(|e| Violation { sig: "deserialize".into(), detail: format!("{e}; {m:?}") })?;
        same_map(&c, &m, &w, "string", o)?;
        let val = serde_json::to_value(&t).map_err(|e| Violation { sig: "serialize".into(), detail: format!("{e}; {m:?}") })?;
        let e: Tilemap = serde_json::from_value(val).map_err(|e| Violation { sig: "deserialize".into(), detail: format!("{e}; {m:?}") })?;
        same_map(&e, &m, &w, "value", o)?;
        // further edits behave as on the original
        let mut t = t;
        t.events.events.clear();
        let mut m2 = m.clone();
        let mut ops = vec![];
        for _ in 0..20 {
            let op = gen_op(r, &w, &m2, 0.4);
            if let Op::Query(..) = op { continue; }
            ops.push(op);
            apply(&mut a, &mut m2.clone(), op);
            apply(&mut t, &mut m2, op);
        }
        let log = || format!("edits {ops:?} after loading {m:?}");
        compare_tiles(&a, &m2, &w.around(), &log, o)?;
        compare_chunks(&a, &m2, &w.chunks(), &log, o)?;
        let (x, y): (Vec<Ev>, Vec<Ev>) = (a.events.events.iter().map(ev).collect(), t.events.events.iter().map(ev).collect());
        if x != y { return violation("edited/events", format!("loaded map logged {x:?}, original {y:?}; {}", log())); }
        o.count("round trips", 4);
        o.class(format!("{} chunks {} tiles {}", w.kind, m.chunks.len().min(9), m.tiles.len().min(20)));
        o.sample(|| format!("{m:?}"));
        Ok(())
    });
    ctx.stream("large maps", ctx.scale(8), |r, o, _| {
        let path = thread_path(&scratch, "large");
        let n = r.log(100., 3000.) as usize;
        let (ps, kind) = many_chunks(r, n);
        let (mut t, mut m) = (Tilemap::default(), Model::default());
        for p in &ps {
            let x = if r.chance(0.1) { 0 } else { 1 + r.below(255) as u8 };
            apply(&mut t, &mut m, Op::Set(*p, x));
            if r.chance(0.05) { for k in 0..256 { let c = chunk_of(*p); let q = (c.0 * 16 + k % 16, c.1 * 16 + k / 16); apply(&mut t, &mut m, Op::Set(q, (k + p.0) as u8)); } }
        }
        let what = || format!("{n} positions, {kind}, {} chunks, {} tiles, first {:?}", m.chunks.len(), m.tiles.len(), &ps[..4]);
        o.fp(&ps);
        o.nontrivial();
        if let Err(e) = t.save(path) { return violation("save-failed", format!("{e}; {}", what())); }
        let a = match Tilemap::load(path) { Ok(x) => x, Err(e) => return violation("load-failed", format!("{e}; {}", what())) };
        for p in m.tiles.keys().chain(&ps) {
            if a.get_tile(vv(*p)) != m.get(*p) { return violation("loaded/tile", format!("tile {p:?} reads {}, saved as {}; {}", a.get_tile(vv(*p)), m.get(*p), what())); }
            if t.get_tile(vv(*p)) != m.get(*p) { return violation("tile", format!("tile {p:?} of the original reads {} after saving, set to {}; {}", t.get_tile(vv(*p)), m.get(*p), what())); }
        }
        for c in &m.chunks {
            let Some(ch) = a.get_chunk(&vv(*c)) else { return violation("loaded/chunk", format!("chunk {c:?} is missing after loading; {}", what())) };
            for y in 0..16 { for x in 0..16 {
                let (got, want) = (ch.array2d.get(vv((x, y))).copied(), m.get((c.0 * 16 + x, c.1 * 16 + y)));
                if got != Some(want) { return violation("loaded/cell", format!("chunk {c:?} cell ({x},{y}) is {got:?}, expected {want}; {}", what())); }
            } }
            for d in [(1, 0), (0, 1), (-1, 0), (0, -1)] { let q = (c.0 + d.0, c.1 + d.1); if a.get_chunk(&vv(q)).is_some() != m.chunks.contains(&q) { return violation("loaded/chunk", format!("chunk {q:?} exists={} after loading; {}", a.get_chunk(&vv(q)).is_some(), what())); } }
        }
        if !a.events.events.is_empty() { return violation("loaded/events", format!("{} events after loading; {}", a.events.events.len(), what())); }
        let full = std::fs::read(path).expect("harness-internal: saved file");
        let end = full.iter().rposition(|b| !b.is_ascii_whitespace()).map_or(0, |x| x + 1);
        o.max("bytes of the largest file", end as f64);
        o.max("chunks in the largest map", m.chunks.len() as f64);
        // cut at random places, at block borders, and close to the end
        let mut cuts: Vec<usize> = (0..12).map(|_| r.below(end)).collect();
        cuts.extend((9..28).map(|k| 1usize << k).filter(|k| *k < end));
        cuts.extend([4096, 8192, 65536].map(|k| (end - 1) / k * k));
        cuts.extend((1..=12.min(end)).map(|k| end - k));
        cuts.sort();
        for n in cuts.into_iter().rev() {
            let f = std::fs::OpenOptions::new().write(true).open(path).expect("harness-internal");
            f.set_len(n as u64).expect("harness-internal");
            drop(f);
            match std::panic::catch_unwind(|| Tilemap::load(path).is_ok()) {
                Ok(false) => {}
                Ok(true) => return violation("truncated-loaded", format!("a file of {end} bytes cut to {n} loaded as a map; {}", what())),
                Err(_) => return violation("truncated-panic", format!("loading a file of {end} bytes cut to {n} panicked: {}", last_panic())),
            }
            o.count("truncation points tried", 1);
        }
        o.count("round trips", 1);
        o.class(format!("large {kind} 2^{} chunks", m.chunks.len().max(1).ilog2()));
        o.sample(what);
        Ok(())
    });
    ctx.stream("truncated files", ctx.scale(24), |r, o, i| {
        let path = thread_path(&scratch, "cut");
        let (t, m, _) = gen_map(r, if i % 8 == 0 { 0 } else { 12 });
        o.fp(&m.chunks); o.fp(m.tiles.len());
        o.nontrivial();
        if let Err(e) = t.save(path) { return violation("save-failed", format!("{e}")); }
        let full = std::fs::read(path).expect("harness-internal: saved file");
        let end = full.iter().rposition(|b| !b.is_ascii_whitespace()).map_or(0, |x| x + 1);
        for n in (0..end).rev() {
            let f = std::fs::OpenOptions::new().write(true).open(path).expect("harness-internal");
            f.set_len(n as u64).expect("harness-internal");
            drop(f);
            match std::panic::catch_unwind(|| Tilemap::load(path).is_ok()) {
                Ok(false) => {}
                Ok(true) => return violation("truncated-loaded", format!("a file of {end} bytes cut to {n} loaded as a map; {m:?}")),
                Err(_) => return violation("truncated-panic", format!("loading a file of {end} bytes cut to {n} panicked: {}; {m:?}", last_panic())),
            }
            o.count("truncation points tried", 1);
        }
        o.class(format!("cut chunks {}", m.chunks.len()));
        Ok(())
    });
    ctx.stream("failing paths", ctx.scale(60), |r, o, i| {
        let (t, m, _) = gen_map(r, if i % 4 == 0 { 0 } else { 60 });
        o.fp(&m.chunks); o.fp((m.tiles.len(), i));
        o.nontrivial();
        let dir = leak(format!("{}/dir-{}", scratch.0, i));
        let _ = std::fs::create_dir_all(dir);
        let missing: &'static str = leak(format!("{}/missing/{}.json", scratch.0, i));
        let file = format!("{}/plain-{}", scratch.0, i);
        let _ = std::fs::write(&file, "x");
        let below: &'static str = leak(format!("{file}/map.json"));
        let absent: &'static str = leak(format!("{}/absent-{}.json", scratch.0, i));
        let mut saves = vec![("a directory", dir), ("a missing directory", missing), ("below a plain file", below), ("an empty name", "")];
        if std::path::Path::new("/dev/full").exists() { saves.push(("a full device", "/dev/full")); }
        for (n, path) in saves {
            match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| t.save(path).is_err())) {
                Ok(true) => {}
                Ok(false) => return violation("save-ok", format!("saving {} chunks to {n} reported success; {m:?}", m.chunks.len())),
                Err(_) => return violation("save-panic", format!("saving to {n} panicked: {}", last_panic())),
            }
            o.count("failing saves reported", 1);
        }
        for (n, path) in [("a missing file", absent), ("a directory", dir), ("a missing directory", missing), ("an empty name", "")] {
            match std::panic::catch_unwind(|| Tilemap::load(path).is_err()) {
                Ok(true) => {}
                Ok(false) => return violation("load-ok", format!("loading {n} returned a map")),
                Err(_) => return violation("load-panic", format!("loading {n} panicked: {}", last_panic())),
            }
            o.count("failing loads reported", 1);
        }
        if std::path::Path::new(absent).exists() { return violation("load-created", "loading a missing file created it".to_string()); }
        o.class(format!("faults chunks {}", m.chunks.len().min(9)));
        Ok(())
    });
    ctx.stream("names and neighbours", ctx.scale(500), |r, o, _| {
        // a directory of its own, with other files in it
        let own = format!("{}.d", thread_path(&scratch, "names"));
        let _ = std::fs::remove_dir_all(&own);
        std::fs::create_dir_all(format!("{own}/a/b")).expect("harness-internal");
        let long = "n".repeat(255);
        let names: Vec<&str> = vec!["m", "m.json", "m ", " m", "m.", "m.tmp", "m.json.tmp", "m.json~", ".m", "M", "\u{fc}-\u{5730}\u{56f3}", "a b.json", "m\nn", "m\t", "%20", "*?", "-m", "~", "$HOME", "\\", "a/m", "a/b/m.json", &long];
        let forms = ["", "./", "a/../", "/", "a/b/../../", "a//b/./../../"];
        let cwd = std::env::current_dir().expect("harness-internal");
        let up = "../".repeat(cwd.components().count());
        let mut saved: BTreeMap<String, (Tilemap, Model, Window)> = BTreeMap::new();
        let mut others: BTreeMap<String, Vec<u8>> = BTreeMap::new();
        for n in &names { if r.chance(0.3) && n.len() < 200 { let bytes: Vec<u8> = (0..r.below(300)).map(|_| r.u64() as u8).collect(); std::fs::write(format!("{own}/{n}"), &bytes).expect("harness-internal"); others.insert(n.to_string(), bytes); } }
        o.nontrivial();
        for _ in 0..6 {
            let n = r.pick(&names);
            let path = format!("{}{own}/{}{n}", if r.chance(0.3) { up.as_str() } else { "" }, r.pick(&forms));
            let path = thread_name(path);
            let (t, m, w) = gen_map(r, 20);
            o.fp(n); o.fp(&m.chunks);
            if r.chance(0.7) {
                if let Err(e) = t.save(path) { return violation("save-failed", format!("{path:?}: {e}")); }
                others.remove(n); saved.insert(n.to_string(), (t, m, w));
            }
            for (n, (_, m, w)) in &saved {
                let path = thread_name(format!("{own}/{n}"));
                let a = match Tilemap::load(path) { Ok(x) => x, Err(e) => return violation("load-failed", format!("{path:?}: {e}")) };
                same_map(&a, m, w, "file of that name", o)?;
                o.count("maps loaded from among others", 1);
            }
            // everything else is as it was
            for (n, bytes) in &others {
                if std::fs::read(format!("{own}/{n}")).ok().as_ref() != Some(bytes) { return violation("neighbour", format!("saving {path:?} changed the file {n:?} beside it")); }
                o.count("other files found untouched", 1);
            }
            let mut found = vec![];
            for (d, pre) in [("", ""), ("/a", "a/"), ("/a/b", "a/b/")] { for e in std::fs::read_dir(format!("{own}{d}")).expect("harness-internal").flatten() { if e.file_type().is_ok_and(|t| !t.is_dir()) { found.push(format!("{pre}{}", e.file_name().to_string_lossy())); } } }
            found.sort();
            let mut want: Vec<String> = saved.keys().chain(others.keys()).cloned().collect();
            want.sort();
            if found != want { return violation("strays", format!("files {found:?} after saving {path:?}, expected {want:?}")); }
        }
        o.class(format!("{} maps among {} files", saved.len(), others.len()));
        // several at the same time
        let mine: Vec<_> = (0..4).map(|k| (thread_name(format!("{own}/m.{k}")), gen_map(r, 30))).collect();
        let fails: Vec<String> = std::thread::scope(|s| {
            let h: Vec<_> = mine.iter().map(|(path, (t, _, _))| s.spawn(move || (0..3).filter_map(|_| t.save(path).err().or_else(|| Tilemap::load(path).err())).map(|e| format!("{path:?}: {e}")).collect::<Vec<_>>())).collect();
            h.into_iter().flat_map(|h| h.join().unwrap_or_else(|_| vec!["a panic".into()])).collect()
        });
        if let Some(f) = fails.first() { return violation("concurrent", f.clone()); }
        for (path, (_, m, w)) in &mine {
            let a = match Tilemap::load(path) { Ok(x) => x, Err(e) => return violation("load-failed", format!("{path:?}: {e}")) };
            same_map(&a, m, w, "file saved while others were", o)?;
            o.count("maps saved at the same time", 1);
        }
        Ok(())
    });
    // writes that fail after a given number of bytes (file size limit, in a child process)
    ctx.stream("failing writes", ctx.scale(10), |r, o, i| {
        if !cfg!(target_os = "linux") { return Ok(()); }
        let seed = r.u64();
        let exe = std::env::current_exe().expect("harness-internal");
        let out = std::process::Command::new(exe).args(["child-limited-save", &seed.to_string(), &format!("{}/limited-{i}.json", scratch.0)]).output().expect("harness-internal: child");
        let text = String::from_utf8_lossy(&out.stdout);
        o.fp(seed);
        o.nontrivial();
        let Some(line) = text.lines().last() else { panic!("harness-internal: child said nothing: {}", String::from_utf8_lossy(&out.stderr)) };
        if let Some(x) = line.strip_prefix("bad ") { return violation("limited-save", x.to_string()); }
        let Some(n) = line.strip_prefix("ok ").and_then(|x| x.parse::<u64>().ok()) else { panic!("harness-internal: child: {line}") };
        o.count("writes that failed part-way", n);
        o.class("limited writes");
        Ok(())
    });
}

#[repr(C)]
struct RLimit { cur: u64, max: u64 }
extern "C" {
    fn setrlimit(resource: i32, rlim: *const RLimit) -> i32;
    fn signal(sig: i32, handler: usize) -> usize;
}
/// Child process: saves one map under every possible file size limit.
pub fn child_limited_save(seed: u64, path: &str) {
    let mut r = Rng::new(seed, 3, 4);
    let (mut t, _, _) = gen_map(&mut r, 20);
    t.set_tile(vv((3, 3)), 9); // not empty
    let path = leak(path.to_string());
    t.save(path).expect("harness-internal: save without limit");
    let len = std::fs::metadata(path).unwrap().len();
    unsafe { signal(25, 1); } // SIGXFSZ ignored: the write returns an error instead
    let mut n = 0;
    for limit in 0..=len {
        if len > 3000 && limit % 7 != 0 && limit + 50 < len && limit > 50 { continue; }
        let _ = std::fs::remove_file(path);
        if unsafe { setrlimit(1, &RLimit { cur: limit, max: u64::MAX }) } != 0 { println!("setrlimit failed"); return; }
        let ok = t.save(path).is_ok();
        if ok != (limit >= len) {
            println!("bad saving a map of {len} bytes with room for {limit} returned {}", if ok { "Ok" } else { "an error" });
            return;
        }
        n += !ok as u64;
    }
    println!("ok {n}");
}

/// Tilemap queries for C18.
pub fn silent_scene(r: &mut Rng, d: &mut crate::silent::D) {
    use auburn::col2d::PenetratesRel2d;
    let l = gen_level(r);
    let c = centre(&l);
    let w = Vec2::new(c.0 as f32 + gen_offset(r), c.1 as f32 + gen_offset(r));
    d.b(l.t.collides_rel(&Point, &w));
    d.b(l.t.penetrates_rel(&Point, &w).is_some());
    let dir = Vec2::new(r.range(-1., 1.) as f32, r.range(-1., 1.) as f32);
    d.v(Actor::Ball(r.range(0.1, 1.5) as f32).resolve(&l.t, w, dir));
    d.v(Actor::Box(r.range(0.1, 1.5) as f32, r.range(0.1, 1.5) as f32).resolve(&l.t, w, dir));
    for _ in 0..4 { let q = gen_tile_pos(r); d.u(l.t.get_tile(vv(q)) as u64); d.b(l.t.get_chunk(&vv(chunk_of(q))).is_some()); }
    let q = l.t.quantize(&Box2d::with_halfdims(r.range(0., 2.) as f32, r.range(0., 2.) as f32), &w);
    for p in q.iterate_with_direction_f32(dir.x, dir.y) { d.u(p.x() as u32 as u64); d.u(p.y() as u32 as u64); }
    d.u(l.t.events.events.len() as u64);
}
