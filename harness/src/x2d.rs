//! Monitors that relate several answers of the 2D queries to each other and to the oracle:
//! modes and call forms, swapped arguments, world frame, shape union, robustness, work bound.
use crate::fw::*;
use crate::gen::*;
use crate::geo::*;
use crate::q2d::*;
use crate::rng::Rng;
use crate::with_pair;
use auburn::col2d::*;
use std::cell::Cell;

/// Two placements in the world and the oracle for them in the world frame.
#[derive(Clone, Debug)]
pub struct World { pub ta: T, pub tb: T, pub case: Case }

pub fn compose64(a: &Sim, b: &Sim) -> Sim {
    Sim { pos: a.apply(b.pos), c: a.c * b.c - a.s * b.s, s: a.s * b.c + a.c * b.s, scale: a.scale * b.scale }
}

pub fn world_case(r: &mut Rng, c: &Case, kind: K) -> World {
    let mag = c.ext * match r.below(4) { 0 => 0.0, 1 => r.log(0.01, 1.), 2 => r.log(1., 10.), _ => r.log(10., 100.) };
    let th = r.range(0., std::f64::consts::TAU);
    let sc = if r.chance(0.4) { 1.0 } else if r.chance(0.08) { r.log(1e-4, 1e4) as f32 } else { r.log(0.2, 5.) as f32 };
    let mag = if matches!(kind, K::Axis | K::Full) { mag * sc as f64 } else { mag };
    let ta = T { kind, pos: v(p(mag * th.cos(), mag * th.sin())), ang: gen_angle(r), sc }.limited(kind);
    let s = compose64(&ta.sim(), &c.rel.sim());
    let tb = T { kind, pos: v(s.pos), ang: ta.ang + c.rel.ang, sc: ta.sc * c.rel.sc }.limited(kind);
    world_of(&c.a, &ta, &c.b, &tb, c)
}

/// Oracle in the world frame for the placements as they are (after rounding to f32).
pub fn world_of(a: &S, ta: &T, b: &S, tb: &T, like: &Case) -> World {
    let ca = a.cvx().transformed(&ta.sim());
    let cb = b.cvx().transformed(&tb.sim());
    let diff = difference(&ca, &cb);
    let sd = diff.sd(p(0., 0.));
    let (pa, pb) = (pp(ta.pos), pp(tb.pos));
    let ext = a.cvx().extent() * ta.sc as f64 + b.cvx().extent() * tb.sc as f64;
    // coordinates far away from the origin lose absolute precision
    let dist = (pa - pb).len() + pa.len() + pb.len();
    World { ta: *ta, tb: *tb, case: Case { a: a.clone(), b: b.clone(), rel: *tb, dim: like.dim, place: like.place, diff, sd,
        ext: ext.max(1e-30), dist } }
}
impl World {
    pub fn desc(&self) -> String {
        let c = &self.case;
        format!("a={:?} at {:?}, b={:?} at {:?}, exact_signed_distance={:.9} ({:?}/{:?})", c.a, self.ta, c.b, self.tb, c.sd, c.dim, c.place)
    }
}

fn slack(k: (usize, usize, usize), a: &S, b: &S, c: &Case) -> (f64, f64) {
    if iterative(a, b, k.2) { (REL, c.tol(TOL_IT)) } else { (0.0, c.tol(TOL_CF)) }
}

pub fn tag(v: Violation, t: &str, desc: &str) -> Violation {
    Violation { sig: format!("{t}/{}", v.sig), detail: format!("{} | {desc}", v.detail) }
}

/// The answers of the four modes agree with each other (no geometry oracle involved).
fn modes_agree(r: &R, rel: f64, tol: f64, sd: f64, o: &mut Obs) -> Verdict {
    if r.pen.is_some() == r.dist.is_some() {
        return violation("modes/pen-xor-dist", format!("penetrates and distance_to are both {}: {r:?}", if r.pen.is_some() { "Some" } else { "None" }));
    }
    if r.collides != r.pen.is_some() || r.collides != r.sdfv.0 {
        return violation("modes/flags", format!("the overlap decisions differ: {r:?}"));
    }
    let x = pp(r.pen.or(r.dist).unwrap()).len();
    let y = pp(r.sdfv.1).len();
    let slack = 2.0 * tol + 2.05 * rel * sd.abs();
    if !((x - y).abs() <= slack) {
        return violation("modes/length", format!("sdfv has length {y}, the dedicated query {x} (slack {slack}): {r:?}"));
    }
    o.count("mode pairs compared", 6);
    o.max("worst disagreement of lengths, relative to the slack", (x - y).abs() / slack);
    if let Some(s) = r.sdf {
        let want = if r.collides { -x } else { x };
        if !((s as f64 - want).abs() <= 2.0 * tol) {
            return violation("modes/sdf", format!("sdf {s} but the vector query implies {want}: {r:?}"));
        }
        o.count("scalar signed distances compared", 1);
    }
    Ok(())
}

pub fn c12(ctx: &Ctx) {
    for k in all_pairs() {
        ctx.stream(&format!("agree {}", pair_name(k)), ctx.scale(40_000), |r, o, _| {
            let kind = pick_kind(r);
            let c = gen_case(r, k.0, k.1, kind, &DIMS);
            let (rel, tol) = slack(k, &c.a, &c.b, &c);
            fingerprint(o, &c);
            if c.sd.abs() > tol {
                o.nontrivial();
                let res = run_rel(&c.a, &c.b, k.2, &c.rel);
                modes_agree(&res, rel, tol, c.sd, o).map_err(|v| tag(v, "rel", &c.desc()))?;
                // a placement expressed through a richer transformation type is the same placement
                if kind != K::Full {
                    let res2 = run_rel(&c.a, &c.b, k.2, &T { kind: K::Full, ..c.rel });
                    same(&res, &res2, rel, tol, c.sd, 1.0, o).map_err(|v| tag(v, "type", &c.desc()))?;
                }
            } else { o.count("undecided: within rounding of touching", 1); }
            if kind == K::Ident { return Ok(()); }
            let w = world_case(r, &c, kind);
            let (rel, tol) = slack(k, &c.a, &c.b, &w.case);
            if w.case.sd.abs() <= tol { o.count("undecided: within rounding of touching", 1); return Ok(()); }
            o.nontrivial();
            let mut first: Option<R> = None;
            for form in 0..4 {
                let res = run_world(&c.a, &w.ta, &c.b, &w.tb, k.2, form);
                let d = || format!("call form {form}, {}", w.desc());
                modes_agree(&res, rel, tol, w.case.sd, o).map_err(|v| tag(v, "world", &d()))?;
                if let Some(f) = &first { same(f, &res, rel, tol, w.case.sd, 1.0, o).map_err(|v| tag(v, "form", &d()))?; }
                else { first = Some(res); }
            }
            // the relative form, mapped to world orientation and size by hand
            let f = first.unwrap();
            let local = run_delta(&c.a, &w.ta, &c.b, &w.tb, k.2);
            let s = w.ta.sim();
            let map = |q: Vec2| v(s.rotate(pp(q)) * s.scale);
            let mapped = R { collides: local.collides, pen: local.pen.map(map), dist: local.dist.map(map),
                sdfv: (local.sdfv.0, map(local.sdfv.1)), sdf: local.sdf.map(|x| x * w.ta.sc) };
            same(&f, &mapped, rel, tol, w.case.sd, 1.0, o).map_err(|v| tag(v, "relative-form", &w.desc()))?;
            // the same direction up to the 1% (only the distance vector is unique)
            if let (Some(x), Some(y)) = (f.dist, mapped.dist) {
                let e = (pp(x) - pp(y)).len();
                if w.case.sd > 100.0 * tol && !(e <= 0.35 * w.case.sd) {
                    return violation("relative-form/direction", format!("world answer {x:?} but the mapped relative answer is {y:?}; {}", w.desc()));
                }
            }
            o.class(w.case.class("world "));
            o.sample(|| format!("{} -> {f:?}", w.desc()));
            Ok(())
        });
    }
}

/// two sets of answers describe the same situation, `k` being the size of the second relative to the first
pub fn same(x: &R, y: &R, rel: f64, tol: f64, sd: f64, k: f64, o: &mut Obs) -> Verdict {
    if x.collides != y.collides || x.pen.is_some() != y.pen.is_some() || x.dist.is_some() != y.dist.is_some() || x.sdfv.0 != y.sdfv.0 {
        return violation("flags", format!("{x:?} against {y:?}"));
    }
    let slack = 2.0 * tol + 2.05 * rel * sd.abs();
    let ln = |v: Vec2| pp(v).len();
    let mut pairs = vec![("sdfv", ln(x.sdfv.1) * k, ln(y.sdfv.1))];
    if let (Some(a), Some(b)) = (x.pen, y.pen) { pairs.push(("penetrates", ln(a) * k, ln(b))); }
    if let (Some(a), Some(b)) = (x.dist, y.dist) { pairs.push(("distance_to", ln(a) * k, ln(b))); }
    if let (Some(a), Some(b)) = (x.sdf, y.sdf) { pairs.push(("sdf", a as f64 * k, b as f64)); }
    for (n, a, b) in pairs {
        if !((a - b).abs() <= slack) {
            return violation(format!("length/{n}"), format!("{n}: {a} against {b} (slack {slack}); {x:?} against {y:?}"));
        }
        o.count("answers compared", 1);
    }
    Ok(())
}

/// relative form evaluated with the library's own relative transform
fn run_delta(a: &S, ta: &T, b: &S, tb: &T, rep: usize) -> R {
    macro_rules! go { ($f:expr) => {{ let rel = $f(ta).delta_transform(&$f(tb)); let rel = &rel;
        with_pair!(*a, *b, rep, |x, y| rel_all(x, y, rel), |r| x.sdf_rel(y, rel)) }} }
    match ta.kind {
        K::Vec | K::Ident => go!(|t: &T| t.pos),
        K::Translate => go!(|t: &T| Translate2d::from(t.pos)),
        K::Axis => go!(|t: &T| AxisTransform2d::new(t.pos, t.sc)),
        K::Full => go!(|t: &T| t.full()),
    }
}

/// pairs for which the library offers both argument orders (for both representations)
pub fn both_orders() -> Vec<(usize, usize, usize)> {
    vec![(0,0,0),(0,1,0),(0,2,0),(1,1,0),(1,2,0),(2,2,0),(2,3,0),(3,3,0),(1,1,1),(1,2,1),(1,3,1),(2,2,1),(2,3,1),(3,3,1)]
}

pub fn c13(ctx: &Ctx) {
    for k in both_orders() {
        ctx.stream(&format!("swap {}", pair_name(k)), ctx.scale(80_000), |r, o, _| {
            let kind = pick_kind(r);
            let c = gen_case(r, k.0, k.1, kind, &DIMS);
            fingerprint(o, &c);
            // b against a: inverse placement, oracle in b's frame
            let s = c.rel.sim();
            let inv_scale = 1.0 / s.scale;
            let pos = s.unrotate(-s.pos) * inv_scale;
            let inv = T { kind, pos: v(pos), ang: -c.rel.ang, sc: inv_scale as f32 }.limited(kind);
            let (ca, cb) = (c.a.cvx(), c.b.cvx());
            let diff = difference(&cb, &ca.transformed(&inv.sim()));
            let sd2 = diff.sd(p(0., 0.));
            let c2 = Case { a: c.b.clone(), b: c.a.clone(), rel: inv, diff, sd: sd2, ext: c.ext * inv_scale, dist: c.dist * inv_scale, ..c.clone() };
            let it = iterative(&c.a, &c.b, k.2) || iterative(&c.b, &c.a, k.2);
            let (rel, tol) = if it { (REL, c.tol(TOL_IT)) } else { (0.0, c.tol(TOL_CF)) };
            if c.sd.abs() <= tol || c2.sd.abs() <= tol * inv_scale { o.count("undecided: within rounding of touching", 1); return Ok(()); }
            o.nontrivial();
            let x = run_rel(&c.a, &c.b, k.2, &c.rel);
            let y = run_rel(&c.b, &c.a, k.2, &inv);
            let d = || format!("original {} ; swapped {}", c.desc(), c2.desc());
            let x0 = R { sdf: if y.sdf.is_some() { x.sdf } else { None }, ..x };
            same(&y, &x0, rel, tol, c.sd, s.scale, o).map_err(|v| tag(v, "swap", &d()))?;
            // the swapped vectors, applied to the second shape, resolve the situation too
            check_touch(&c2, &y, rel, tol * inv_scale, o).map_err(|v| tag(v, "swapped", &d()))?;
            check_touch(&c, &x, rel, tol, o).map_err(|v| tag(v, "original", &d()))?;
            if c.sd > 100.0 * tol {
                for (n, u, w) in [("distance_to", x.dist, y.dist), ("sdfv", Some(x.sdfv.1), Some(y.sdfv.1))] {
                    if let (Some(u), Some(w)) = (u, w) {
                        let back = s.rotate(pp(w)) * s.scale;
                        if !((pp(u) + back).len() <= 0.35 * c.sd) {
                            return violation(format!("swap/direction/{n}"), format!("{n} is {u:?}, swapped and mapped back {back:?} is not opposite; {}", d()));
                        }
                        o.count("directions compared", 1);
                    }
                }
            }
            // world space, colliders swapped
            if kind != K::Ident {
                let w = world_case(r, &c, kind);
                let w2 = world_of(&c.b, &w.tb, &c.a, &w.ta, &c);
                let (rel, tol) = if it { (REL, w.case.tol(TOL_IT)) } else { (0.0, w.case.tol(TOL_CF)) };
                if w.case.sd.abs() > tol {
                    let f = r.below(4);
                    let x = run_world(&c.a, &w.ta, &c.b, &w.tb, k.2, f);
                    let y = run_world(&c.b, &w.tb, &c.a, &w.ta, k.2, f);
                    let x0 = R { sdf: if y.sdf.is_some() { x.sdf } else { None }, ..x };
                    same(&y, &x0, rel, tol, w.case.sd, 1.0, o).map_err(|v| tag(v, "world-swap", &w.desc()))?;
                    check_touch(&w2.case, &y, rel, tol, o).map_err(|v| tag(v, "world-swapped", &w.desc()))?;
                }
            }
            o.class(c.class(if k.2 == 1 { "Shape2d " } else { "" }));
            o.sample(|| format!("{} -> {x:?} / swapped {y:?}", c.desc()));
            Ok(())
        });
    }
}

pub fn c14(ctx: &Ctx) {
    for k in all_pairs() {
        ctx.stream(&format!("world {}", pair_name(k)), ctx.scale(60_000), |r, o, _| {
            let kind = match r.below(6) { 0 => K::Vec, 1 => K::Translate, 2 => K::Axis, _ => K::Full };
            let c = gen_case(r, k.0, k.1, kind, &DIMS);
            let w = world_case(r, &c, kind);
            fingerprint(o, &w.case);
            o.fpf(&w.ta.bits());
            let (rel, tol) = slack(k, &c.a, &c.b, &w.case);
            if w.case.sd.abs() <= tol { o.count("undecided: within rounding of touching", 1); return Ok(()); }
            o.nontrivial();
            let f = r.below(4);
            let x = run_world(&c.a, &w.ta, &c.b, &w.tb, k.2, f);
            let d = || w.desc();
            check_flags(&w.case, &x, tol, o).map_err(|v| tag(v, "world", &d()))?;
            check_len(&w.case, &x, rel, tol, o).map_err(|v| tag(v, "world", &d()))?;
            check_touch(&w.case, &x, rel, tol, o).map_err(|v| tag(v, "world", &d()))?;
            // metamorphic: the whole scene moved, rotated and scaled
            let sc = if r.chance(0.4) || !matches!(kind, K::Axis | K::Full) { 1.0 } else if r.chance(0.1) { r.log(1e-4, 1e4) as f32 } else { r.log(0.1, 10.) as f32 };
            let far = w.case.ext * sc as f64;
            let g = T { kind, pos: v(p(r.range(-30., 30.) * far, r.range(-30., 30.) * far)), ang: gen_angle(r), sc }.limited(kind);
            let mv = |t: &T| { let s = compose64(&g.sim(), &t.sim()); T { kind, pos: v(s.pos), ang: t.ang + g.ang, sc: t.sc * g.sc }.limited(kind) };
            let (ga, gb) = (mv(&w.ta), mv(&w.tb));
            let w2 = world_of(&c.a, &ga, &c.b, &gb, &c);
            let (_, tol2) = slack(k, &c.a, &c.b, &w2.case);
            let tol = tol * g.sc as f64 + tol2;
            if w2.case.sd.abs() <= tol { o.count("undecided after moving: within rounding of touching", 1); return Ok(()); }
            let y = run_world(&c.a, &ga, &c.b, &gb, k.2, f);
            let dd = || format!("{} ; moved by {g:?}: {}", w.desc(), w2.desc());
            same(&x, &y, rel, tol, w2.case.sd, g.sc as f64, o).map_err(|v| tag(v, "moved", &dd()))?;
            check_touch(&w2.case, &y, rel, tol, o).map_err(|v| tag(v, "moved", &dd()))?;
            o.count("scenes moved and compared", 1);
            o.class(w.case.class(if k.2 == 1 { "Shape2d " } else { "" }));
            o.sample(|| format!("{} -> {x:?}", w.desc()));
            Ok(())
        });
    }
}

// ---------------------------------------------------------------- user-defined shapes

/// A shape defined outside of the library: segment inflated by a radius.
#[derive(Debug, Clone)]
pub struct Capsule { pub half: Vec2, pub radius: f32 }
impl ExtremePoint2d for Capsule {
    fn extreme_point(&self, d: Vec2) -> Vec2 {
        let e = if d.dot(self.half) < 0.0 { -self.half } else { self.half };
        e + self.radius * d.normalize_or_zero()
    }
}
impl Capsule {
    pub fn cvx(&self) -> Convex { Convex { points: vec![pp(self.half), -pp(self.half)], radius: self.radius as f64 } }
}

auburn::shape_union!(Mine; Ball, Box2d, Poly2d, Capsule);

fn mine(s: &S) -> Mine {
    match s { S::Ball(_) => Mine::Ball(s.ball()), S::Bx(..) => Mine::Box2d(s.bx()), S::Poly(_) => Mine::Poly2d(s.poly()), S::Pt => panic!("harness-internal") }
}
fn run_any<A, B>(a: &A, b: &B, t: &T) -> R
where A: DefaultMinkowski<B>, B: ExtremePoint2d {
    match t.kind {
        K::Ident => rel_all(a, b, &IdentityTransform),
        K::Vec => rel_all(a, b, &t.pos),
        K::Translate => rel_all(a, b, &Translate2d::from(t.pos)),
        K::Axis => rel_all(a, b, &AxisTransform2d::new(t.pos, t.sc)),
        K::Full => rel_all(a, b, &t.full()),
    }
}

pub fn gen_dir(r: &mut Rng) -> Vec2 {
    let th = match r.below(4) { 0 => r.int(0, 8) as f64 * std::f64::consts::FRAC_PI_4, 1 => r.int(0, 4) as f64 * std::f64::consts::FRAC_PI_2 + r.sign() * r.log(1e-6, 1e-3), _ => r.range(0., 6.3) };
    let l = match r.below(4) { 0 => 1.0, 1 => r.log(1e-5, 1e-1), 2 => r.log(10., 1e5), _ => r.log(0.1, 10.) };
    let l = if r.chance(0.1) { r.log(1e-15, 1e15) } else { l };
    if r.chance(0.15) { return v(r.pick(&[p(1., 0.), p(-1., 0.), p(0., 1.), p(0., -1.), p(1., 1.), p(-1., 1.)]) * l); }
    v(p(th.cos() * l, th.sin() * l))
}

/// `q` is a farthest point of `body` along `d`
pub fn is_support(c: &Convex, body: &Body, d: Vec2, q: Vec2, tol: f64) -> Verdict {
    let d64 = pp(d) * (1.0 / pp(d).len());
    if !q.is_finite() { return violation("nan", format!("extreme point {q:?} along {d:?}")); }
    let h = c.h(d64);
    let got = pp(q).dot(d64);
    if (h - got).abs() > tol {
        return violation("not-farthest", format!("extreme point {q:?} along {d:?} reaches {got}, but the shape reaches {h} (tol {tol})"));
    }
    let out = body.sd(pp(q));
    if out > tol {
        return violation("outside", format!("extreme point {q:?} along {d:?} is {out} outside of the shape (tol {tol})"));
    }
    Ok(())
}

pub fn c15(ctx: &Ctx) {
    // any ball, box or polygon a union can hold, those beside the origin included
    ctx.stream("held shapes", ctx.scale(200_000), |r, o, _| {
        let kind = 1 + r.below(3);
        let dim = r.pick(&DIMS);
        let s = if kind == 3 && r.chance(0.6) { S::Poly(gen_poly_any(r)) } else { gen_shape(r, kind, dim) };
        let d = gen_dir(r);
        o.fpf(&s.bits()); o.fpf(&[d.x, d.y]);
        o.nontrivial();
        let cv = s.cvx();
        let body = Body::new(&cv);
        let tol = 4e-6 * cv.extent();
        let u = s.shape2d();
        if kind == 3 { o.count(if body.sd(p(0., 0.)) > 0. { "held polygons beside the origin" } else { "held polygons around the origin" }, 1) }
        for (n, q) in [("Shape2d", u.extreme_point(d)), ("user union", mine(&s).extreme_point(d)), ("clone", u.clone().extreme_point(d))] {
            is_support(&cv, &body, d, q, tol).map_err(|v| tag(v, &format!("extreme point of {n}"), &format!("{s:?}")))?;
            o.count("union extreme points checked", 1);
        }
        o.class(format!("held {} {dim:?} octant {}", s.kind(), ((d.y as f64).atan2(d.x as f64) / 0.785398163).floor()));
        Ok(())
    });
    let pairs: Vec<(usize, usize, usize)> = ITERATIVE.iter().copied().filter(|k| k.2 == 1).collect();
    for k in pairs {
        ctx.stream(&format!("union {}", pair_name(k)), ctx.scale(60_000), |r, o, _| {
            let kind = pick_kind(r);
            let c = gen_case(r, k.0, k.1, kind, &DIMS);
            fingerprint(o, &c);
            // constructors hold the requested dimensions
            for s in [&c.a, &c.b] {
                let ok = match (s, s.shape2d()) {
                    (S::Ball(x), Shape2d::Ball(y)) => *x == y.radius,
                    (S::Bx(x, y), Shape2d::Box2d(z)) => *x == z.halfsize.x && *y == z.halfsize.y,
                    (S::Poly(x), Shape2d::Poly2d(y)) => *x == y.points,
                    _ => false,
                };
                if !ok { return violation("constructor", format!("{s:?} became {:?}", s.shape2d())); }
                let cv = s.cvx();
                let body = Body::new(&cv);
                let d = gen_dir(r);
                let tol = 4e-6 * cv.extent();
                let u = s.shape2d();
                for (n, q) in [("Shape2d", u.extreme_point(d)), ("user union", mine(s).extreme_point(d)), ("clone", u.clone().extreme_point(d))] {
                    is_support(&cv, &body, d, q, tol).map_err(|v| tag(v, &format!("extreme point of {n}"), &format!("{s:?}")))?;
                    o.count("union extreme points checked", 1);
                }
                // placed
                let t = c.rel.full();
                let tol = tol * c.rel.sc as f64 + 4e-6 * c.dist;
                let cw = cv.transformed(&c.rel.sim());
                let bw = Body::new(&cw);
                for (n, q) in [("Shape2d", Collider2d::new(&u, &t).extreme_point(d)), ("user union", mine(s).extreme_point_t(&t, d))] {
                    is_support(&cw, &bw, d, q, tol).map_err(|v| tag(v, &format!("placed extreme point of {n}"), &c.desc()))?;
                }
            }
            let tol = c.tol(TOL_IT);
            if c.sd.abs() <= tol { o.count("undecided: within rounding of touching", 1); return Ok(()); }
            o.nontrivial();
            let x = run_rel(&c.a, &c.b, 1, &c.rel);
            let y = run_any(&mine(&c.a), &mine(&c.b), &c.rel);
            same(&x, &y, REL, tol, c.sd, 1.0, o).map_err(|v| tag(v, "built-in against user union", &c.desc()))?;
            let concrete = |a: &S, b: &S| !matches!((a.kind(), b.kind()), (1, 3) | (3, 1));
            if concrete(&c.a, &c.b) {
                let z = R { sdf: None, ..run_rel(&c.a, &c.b, 0, &c.rel) };
                same(&z, &x, REL, tol, c.sd, 1.0, o).map_err(|v| tag(v, "union against concrete", &c.desc()))?;
                o.count("union answers compared with the concrete shapes", 1);
            }
            check_touch(&c, &x, REL, tol, o).map_err(|v| tag(v, "union", ""))?;
            check_touch(&c, &y, REL, tol, o).map_err(|v| tag(v, "user union", ""))?;
            o.class(c.class(""));
            o.sample(|| format!("{} -> union {x:?}", c.desc()));
            Ok(())
        });
    }
    // union with a variant the library does not know
    for kb in 1..4 {
        ctx.stream(&format!("union Mine(Capsule)-Mine({})", ["", "Ball", "Box2d", "Poly2d"][kb]), ctx.scale(40_000), |r, o, _| {
            let dim = r.pick(&DIMS);
            let b = gen_shape(r, kb, dim);
            let size = b.cvx().extent() * r.log(0.1, 10.);
            let th = gen_angle(r) as f64;
            let cap = Capsule { half: v(p(th.cos() * size, th.sin() * size)), radius: (size * r.log(0.01, 2.)) as f32 };
            let c = capsule_case(r, &cap, b, dim);
            fingerprint(o, &c);
            o.fpf(&[cap.half.x, cap.half.y, cap.radius]);
            let tol = c.tol(TOL_IT);
            if c.sd.abs() <= tol { o.count("undecided: within rounding of touching", 1); return Ok(()); }
            o.nontrivial();
            let (x, y) = (Mine::Capsule(cap.clone()), mine(&c.b));
            let res = run_any(&x, &y, &c.rel);
            let d = || format!("a={cap:?} b={:?} rel={:?} exact {}", c.b, c.rel, c.sd);
            check_flags(&c, &res, tol, o).map_err(|v| tag(v, "user shape", &d()))?;
            check_len(&c, &res, REL, tol, o).map_err(|v| tag(v, "user shape", &d()))?;
            check_touch(&c, &res, REL, tol, o).map_err(|v| tag(v, "user shape", &d()))?;
            o.class(c.class("capsule "));
            Ok(())
        });
    }
}

fn capsule_case(r: &mut Rng, cap: &Capsule, b: S, dim: Dim) -> Case {
    let kind = pick_kind(r);
    let mut t = T { kind, pos: Vec2::ZERO, ang: gen_angle(r), sc: if r.chance(0.5) { 1.0 } else { r.log(0.2, 5.) as f32 } }.limited(kind);
    let ca = cap.cvx();
    let ext = ca.extent() + b.cvx().extent() * t.sc as f64;
    if kind != K::Ident {
        let th = r.range(0., 6.3);
        let m = ext * if r.chance(0.5) { r.range(0., 1.2) } else { r.log(1e-3, 10.) };
        t.pos = v(p(th.cos() * m, th.sin() * m));
    }
    let diff = difference(&ca, &b.cvx().transformed(&t.sim()));
    let sd = diff.sd(p(0., 0.));
    Case { a: S::Pt, b, rel: t, dim, place: Place::Uniform, diff, sd, ext, dist: pp(t.pos).len() }
}

// ---------------------------------------------------------------- robustness

fn degenerate_size(r: &mut Rng) -> f32 {
    match r.below(12) {
        0 => 0.0,
        1 => 1.0,
        2 => r.log(1e-6, 1e-3) as f32,
        3 => r.log(1e3, 1e4) as f32,
        4 => 1e4,
        5 => 1e-9,
        6 => r.log(1e-9, 1e-6) as f32,
        7 => r.int(0, 8) as f32 * 0.5,
        _ => r.log(1e-2, 1e2) as f32,
    }
}
pub fn degenerate_shape(r: &mut Rng, kind: usize) -> S {
    match kind {
        0 => S::Pt,
        1 => S::Ball(degenerate_size(r)),
        2 => { let x = degenerate_size(r); S::Bx(x, if r.chance(0.3) { x } else { degenerate_size(r) }) }
        _ => {
            let x = degenerate_size(r) as f64;
            let y = if r.chance(0.5) { x } else { degenerate_size(r) as f64 };
            match r.below(6) {
                0 => { let n = 1 + r.below(3); S::Poly((0..n).map(|_| v(p(r.range(-x, x), r.range(-y, y)))).collect()) } // point, segment
                1 => { let n = 3 + r.below(8); let q = v(p(x, y)); S::Poly((0..n).map(|i| q * (i as f32 - n as f32 / 2.0)).collect()) } // collinear
                2 => { let mut q = gen_poly_round(r, 5, x, y); let d = q[0]; q.push(d); q.push(d); S::Poly(q) } // repeated vertices
                3 => { let n = 3 + r.below(60); S::Poly(Poly2d::regular(n, x as f32).points) }
                4 => S::Poly(Poly2d::from(Box2d::with_halfdims(x as f32, y as f32)).points),
                _ => { let n = 3 + r.below(6); S::Poly(gen_poly_round(r, n, x, y)) }
            }
        }
    }
}
pub fn degenerate_pos(r: &mut Rng, a: &S, b: &S) -> Vec2 {
    let e = (a.cvx().extent() + b.cvx().extent()).max(1e-9);
    let c = |r: &mut Rng| match r.below(9) {
        0 => 0.0,
        1 => r.sign() * e,
        2 => r.sign() * e * (1.0 + r.sign() * r.log(1e-8, 1e-6)),
        3 => r.sign() * r.log(1e-9, 1e-6),
        4 => r.sign() * r.log(1e3, 1e6),
        5 => r.sign() * a.cvx().extent(),
        6 => r.sign() * e * 0.5,
        7 => -0.0,
        _ => r.range(-2. * e, 2. * e),
    };
    let (x, y) = (c(r), if r.chance(0.2) { f64::NAN } else { c(r) });
    v(p(x, if y.is_nan() { x } else { y }))
}

fn all_finite(x: &R, names: &str) -> Verdict {
    let bad = |n: &str, q: Vec2| violation(format!("not-finite/{n}"), format!("{n} returned {q:?}; {names}"));
    if let Some(q) = x.pen { if !q.is_finite() { return bad("penetrates", q); } }
    if let Some(q) = x.dist { if !q.is_finite() { return bad("distance_to", q); } }
    if !x.sdfv.1.is_finite() { return bad("sdfv", x.sdfv.1); }
    if let Some(q) = x.sdf { if !q.is_finite() { return violation("not-finite/sdf", format!("sdf returned {q}; {names}")); } }
    Ok(())
}

pub fn c16(ctx: &Ctx) {
    for k in all_pairs() {
        ctx.stream(&format!("robust {}", pair_name(k)), ctx.scale(100_000), |r, o, _| {
            let kind = pick_kind(r);
            let (a, b) = (degenerate_shape(r, k.0), degenerate_shape(r, k.1));
            let sc = match r.below(4) { 0 => 1.0, 1 => r.log(1e-3, 1e3) as f32, _ => r.log(0.1, 10.) as f32 };
            let t = T { kind, pos: degenerate_pos(r, &a, &b), ang: gen_angle(r), sc }.limited(kind);
            o.fpf(&a.bits()); o.fpf(&b.bits()); o.fpf(&t.bits());
            o.nontrivial();
            let d = || format!("a={a:?} b={b:?} t={t:?}");
            let x = guard(|| run_rel(&a, &b, k.2, &t), &d)?;
            all_finite(&x, &d())?;
            o.count("answers checked for finiteness", 4);
            if kind != K::Ident {
                let ta = T { kind, pos: degenerate_pos(r, &a, &b), ang: gen_angle(r), sc: r.log(0.1, 10.) as f32 }.limited(kind);
                let f = r.below(4);
                let dw = || format!("a={a:?} at {ta:?} b={b:?} at {t:?}");
                let y = guard(|| run_world(&a, &ta, &b, &t, k.2, f), &dw)?;
                all_finite(&y, &dw())?;
                o.count("answers checked for finiteness", 4);
            }
            o.class(format!("{} {:?} {}", pair_name(k), kind, if x.collides { "overlap" } else { "apart" }));
            o.sample(|| format!("{} -> {x:?}", d()));
            Ok(())
        });
    }
    // the ordinary scenes of the other monitors must not panic either
    for k in all_pairs() {
        ctx.stream(&format!("ordinary {}", pair_name(k)), ctx.scale(40_000), |r, o, _| {
            let kind = pick_kind(r);
            let c = gen_case(r, k.0, k.1, kind, &DIMS);
            fingerprint(o, &c);
            o.nontrivial();
            let x = guard(|| run_rel(&c.a, &c.b, k.2, &c.rel), &|| c.desc())?;
            all_finite(&x, &c.desc())?;
            o.class(c.class(if k.2 == 1 { "Shape2d " } else { "" }));
            Ok(())
        });
    }
}

/// runs a query and turns a panic into a violation that names the input
pub fn guard<X>(f: impl FnOnce() -> X, d: &dyn Fn() -> String) -> Result<X, Violation> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(x) => Ok(x),
        Err(_) => {
            let m = last_panic();
            if m.contains("harness-internal") { panic!("{m}"); }
            violation("panic", format!("{m}; {}", d()))
        }
    }
}

// ---------------------------------------------------------------- work bound

/// User-defined shape that counts the evaluations of its extreme point and panics beyond a budget,
/// so that even an endless loop is observed.
pub struct Counting<X> { pub inner: X, pub n: Cell<u64> }
pub const BUDGET: u64 = 256;
/// average evaluations per shape and query with something to report, over the ordinary scenes of one pair of shape kinds
const TYPICAL: [(&str, f64); 4] = [("collides", 6.0), ("distance_to", 8.0), ("penetrates", 32.0), ("sdfv", 22.0)];
impl<X: ExtremePoint2d> ExtremePoint2d for Counting<X> {
    fn extreme_point(&self, d: Vec2) -> Vec2 {
        self.n.set(self.n.get() + 1);
        if self.n.get() > BUDGET { std::panic::panic_any("work-budget-exceeded"); }
        self.inner.extreme_point(d)
    }
}
impl<X: ExtremePoint2d, Y: ExtremePoint2d> DefaultMinkowski<Counting<Y>> for Counting<X> {}

fn counted<A: ExtremePoint2d, B: ExtremePoint2d, X: Transformation2d>(a: A, b: B, t: &X, o: &mut Obs, d: &dyn Fn() -> String, ordinary: Option<&str>) -> Verdict {
    let (a, b) = (Counting { inner: a, n: Cell::new(0) }, Counting { inner: b, n: Cell::new(0) });
    for mode in ["collides", "penetrates", "distance_to", "sdfv"] {
        a.n.set(0);
        b.n.set(0);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match mode {
            "collides" => { a.collides_rel(&b, t); true }
            "penetrates" => a.penetrates_rel(&b, t).is_some(),
            "distance_to" => a.distance_to_rel(&b, t).is_some(),
            _ => { a.sdfv_rel(&b, t); true }
        }));
        let n = a.n.get().max(b.n.get());
        if n > BUDGET {
            return violation(format!("work/{mode}"), format!("{mode} evaluated an extreme point more than {BUDGET} times; {}", d()));
        }
        if r.is_err() { o.count("panicked before the budget was used (see C16)", 1); continue; }
        o.count("queries metered", 1);
        o.count("extreme point evaluations observed", a.n.get() + b.n.get());
        // an answer of "nothing to report" (no overlap, no gap) is cheap and must not dilute the average
        if let (Some(pair), Ok(true)) = (ordinary, r) { o.count(&format!("ordinary {mode} queries, {pair}"), 1); o.count(&format!("evaluations of the busier shape in ordinary {mode} queries, {pair}"), n); }
        o.max(&format!("most evaluations, {mode}{}", if ordinary.is_some() { ", ordinary scenes" } else { ", degenerate scenes" }), n as f64);
    }
    Ok(())
}
fn counted_t<A: ExtremePoint2d, B: ExtremePoint2d>(a: A, b: B, t: &T, o: &mut Obs, d: &dyn Fn() -> String, ordinary: Option<&str>) -> Verdict {
    match t.kind {
        K::Ident => counted(a, b, &IdentityTransform, o, d, ordinary),
        K::Vec => counted(a, b, &t.pos, o, d, ordinary),
        K::Translate => counted(a, b, &Translate2d::from(t.pos), o, d, ordinary),
        K::Axis => counted(a, b, &AxisTransform2d::new(t.pos, t.sc), o, d, ordinary),
        K::Full => counted(a, b, &t.full(), o, d, ordinary),
    }
}
pub fn c17(ctx: &Ctx) {
    for ka in 1..4usize { for kb in 1..4usize {
        let k = (ka, kb, 1);
        ctx.stream(&format!("work {}", pair_name(k)), ctx.scale(60_000), |r, o, _| {
            let kind = pick_kind(r);
            let c = gen_case(r, k.0, k.1, kind, &DIMS);
            fingerprint(o, &c);
            o.nontrivial();
            counted_t(mine(&c.a), mine(&c.b), &c.rel, o, &|| c.desc(), Some(&pair_name(k)))?;
            o.class(c.class(""));
            o.sample(|| c.desc());
            Ok(())
        });
        ctx.stream(&format!("work degenerate {}", pair_name(k)), ctx.scale(60_000), |r, o, _| {
            let kind = pick_kind(r);
            let (a, b) = (degenerate_shape(r, k.0), degenerate_shape(r, k.1));
            let t = T { kind, pos: degenerate_pos(r, &a, &b), ang: gen_angle(r), sc: r.log(1e-3, 1e3) as f32 }.limited(kind);
            o.fpf(&a.bits()); o.fpf(&b.bits()); o.fpf(&t.bits());
            o.nontrivial();
            counted_t(mine(&a), mine(&b), &t, o, &|| format!("a={a:?} b={b:?} t={t:?}"), None)
        });
    } }
    // user-defined shapes: capsules, and smooth shapes with many support points (superellipse polygons)
    ctx.stream("work user shapes", ctx.scale(200_000), |r, o, _| {
        let kind = pick_kind(r);
        let mk = |r: &mut Rng| {
            let s = r.log(1e-3, 1e3);
            let th = r.range(0., 6.3);
            Capsule { half: v(p(th.cos() * s, th.sin() * s)), radius: (s * r.log(1e-3, 1e3)) as f32 }
        };
        let (a, b) = (mk(r), mk(r));
        let e = a.cvx().extent() + b.cvx().extent();
        let t = T { kind, pos: v(p(r.range(-e, e), r.range(-e, e)) * r.log(1e-3, 2.)), ang: gen_angle(r), sc: r.log(0.1, 10.) as f32 }.limited(kind);
        o.fpf(&[a.half.x, a.half.y, a.radius, b.half.x, b.half.y, b.radius]); o.fpf(&t.bits());
        o.nontrivial();
        counted_t(a.clone(), b.clone(), &t, o, &|| format!("a={a:?} b={b:?} t={t:?}"), None)
    });
    ctx.stream("work hostile support functions", ctx.scale(200_000), |r, o, _| {
        // a convex set may answer any of its farthest points, within rounding: noisy support function
        let seed = r.u64();
        let noise = r.log(1e-8, 1e-5) as f32;
        let rx = r.log(0.1, 10.) as f32;
        let ry = r.log(0.1, 10.) as f32;
        let a = Noisy { rx, ry, noise, s: Cell::new(seed) };
        let b = Noisy { rx: ry, ry: rx, noise, s: Cell::new(seed ^ 77) };
        let m = (rx + ry) as f64 * r.log(1e-4, 3.);
        let th = r.range(0., 6.3);
        let pos = v(p(th.cos() * m, th.sin() * m));
        o.fpf(&[rx, ry, noise, pos.x, pos.y]);
        o.nontrivial();
        counted(a, b, &pos, o, &|| format!("noisy ellipses {rx}x{ry}, noise {noise}, at {pos:?}"), None)
    });
    // typical work: the average over all ordinary scenes of each pair of shape kinds
    for ka in 1..4usize { for kb in 1..4usize { for (mode, limit) in TYPICAL {
        let pair = pair_name((ka, kb, 1));
        // round boundaries converge slowest; flat ones end at an edge
        let balls = (ka == 1) as u8 + (kb == 1) as u8;
        let limit = if mode == "penetrates" || mode == "sdfv" { limit * [0.5, 0.7, 1.0][balls as usize] } else { limit };
        let (n, w) = {
            let o = ctx.obs.lock().unwrap();
            let g = |k: String| o.counters.get(&k).copied().unwrap_or(0) as f64;
            (g(format!("ordinary {mode} queries, {pair}")), g(format!("evaluations of the busier shape in ordinary {mode} queries, {pair}")))
        };
        if n > 0. {
            ctx.obs.lock().unwrap().max(&format!("average evaluations, {mode}, ordinary scenes, {pair}"), w / n);
            if n >= 1000. && w / n > limit {
                ctx.aggregate("aggregate work", Violation { sig: format!("typical-work/{mode}"), detail: format!("{mode} of {pair} evaluates an extreme point {:.1} times on average over {n} ordinary scenes, more than {limit}", w / n) });
            }
        }
    } } }
}
struct Noisy { rx: f32, ry: f32, noise: f32, s: Cell<u64> }
impl ExtremePoint2d for Noisy {
    fn extreme_point(&self, d: Vec2) -> Vec2 {
        let mut r = Rng::new(self.s.get(), 1, 2);
        self.s.set(r.u64());
        let e = Vec2::new(self.rx * self.rx * d.x, self.ry * self.ry * d.y);
        let l = Vec2::new(self.rx * d.x, self.ry * d.y).length();
        if l == 0.0 { return Vec2::ZERO; }
        e / l * (1.0 + self.noise * r.range(-1., 1.) as f32)
    }
}

// ------------------------------------------------------------------------------------------ C18

/// One scene for C18: every kind of 2D query on generated arguments, folded into the digest.
pub fn silent_scene(r: &mut Rng, d: &mut crate::silent::D) {
    fn put(d: &mut crate::silent::D, x: &R) {
        d.b(x.collides); d.ov(x.pen); d.ov(x.dist); d.b(x.sdfv.0); d.v(x.sdfv.1);
        if let Some(s) = x.sdf { d.f(s) }
    }
    let pairs = all_pairs();
    let k = pairs[r.below(pairs.len())];
    let kind = pick_kind(r);
    if r.chance(0.3) {
        let (a, b) = (degenerate_shape(r, k.0), degenerate_shape(r, k.1));
        let t = T { kind, pos: degenerate_pos(r, &a, &b), ang: gen_angle(r), sc: r.log(0.1, 10.) as f32 }.limited(kind);
        put(d, &run_rel(&a, &b, k.2, &t));
    } else {
        let c = gen_case(r, k.0, k.1, kind, &DIMS);
        put(d, &run_rel(&c.a, &c.b, k.2, &c.rel));
        let kind = if kind == K::Ident { K::Vec } else { kind };
        let ta = T { kind, pos: v(p(r.range(-9., 9.), r.range(-9., 9.))), ang: gen_angle(r), sc: r.log(0.3, 3.) as f32 }.limited(kind);
        let tb = T { kind, pos: v(p(r.range(-9., 9.), r.range(-9., 9.))), ang: gen_angle(r), sc: r.log(0.3, 3.) as f32 }.limited(kind);
        let f = r.below(4);
        put(d, &run_world(&c.a, &ta, &c.b, &tb, k.2, f));
        let dir = v(p(r.range(-1., 1.), r.range(-1., 1.)));
        for s in [&c.a, &c.b] { d.v(mine_or_point(s, dir)); }
        // placements
        let (x, y) = (ta.full(), tb.full());
        d.v(x.compose(&y).apply(dir)); d.v(x.inverse().apply(dir)); d.v(x.unapply(dir)); d.v(x.delta_transform(&y).apply(dir)); d.v(x.apply_normal(dir)); d.f(x.rot.angle());
    }
    if r.chance(0.2) { crate::tiles::silent_scene(r, d); }
}
fn mine_or_point(s: &S, dir: Vec2) -> Vec2 { if let S::Pt = s { Point.extreme_point(dir) } else { s.shape2d().extreme_point(dir) } }
