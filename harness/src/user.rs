//! C32: shapes and placements defined by the user of the library, which it knows through its traits only.
use crate::fw::*;
use crate::gen::*;
use crate::geo::*;
use crate::q2d::*;
use crate::rng::Rng;
use crate::with_pair;
use crate::x2d::{compose64, gen_dir, is_support, same, tag};
use auburn::col2d::*;

// ---------------------------------------------------------------- shapes

/// Convex hull of points in any order, inflated by a radius: a segment, a capsule, a rounded polygon, a disc
/// beside its origin... Among equally far points it answers the first or the last.
#[derive(Clone, Debug)]
pub struct Round { pts: Vec<Vec2>, radius: f32, last: bool }
impl ExtremePoint2d for Round {
    fn extreme_point(&self, d: Vec2) -> Vec2 {
        let mut best = self.pts[0];
        for q in &self.pts[1..] {
            let (a, b) = (q.dot(d), best.dot(d));
            if a > b || (self.last && a == b) { best = *q }
        }
        best + self.radius * d.normalize_or_zero()
    }
}
/// A smooth shape without any vertex or edge.
#[derive(Clone, Debug)]
pub struct Oval { centre: Vec2, rx: f32, ry: f32, turn: f32 }
impl ExtremePoint2d for Oval {
    fn extreme_point(&self, d: Vec2) -> Vec2 {
        let u = Vec2::from_angle(self.turn);
        let (x, y) = (d.dot(u), d.dot(u.perp()));
        let l = Vec2::new(self.rx * x, self.ry * y).length();
        if l == 0.0 { return self.centre; }
        self.centre + u * (self.rx * self.rx * x / l) + u.perp() * (self.ry * self.ry * y / l)
    }
}
/// A shape chosen at run time.
pub struct Any(Box<dyn ExtremePoint2d + Send + Sync>);
impl ExtremePoint2d for Any { fn extreme_point(&self, d: Vec2) -> Vec2 { self.0.extreme_point(d) } }

macro_rules! mixed { ($($x:ty),+) => { $(
    impl<B: ExtremePoint2d> DefaultMinkowski<B> for $x {}
    impl DefaultMinkowski<$x> for Ball {}
    impl DefaultMinkowski<$x> for Box2d {}
    impl DefaultMinkowski<$x> for Poly2d {}
    impl DefaultMinkowski<$x> for Shape2d {}
    impl<T: Transformation2d> ExtremePointT2d<T> for $x {}
)+ } }
mixed!(Round, Oval, Any);

#[derive(Clone, Debug)]
enum U { Round(Round), Oval(Oval) }
const SIDES: usize = 256;
impl U {
    fn cvx(&self) -> Convex {
        match self {
            U::Round(x) => Convex { points: x.pts.iter().map(|q| pp(*q)).collect(), radius: x.radius as f64 },
            U::Oval(x) => {
                let (c, s) = ((x.turn as f64).cos(), (x.turn as f64).sin());
                let points = (0..SIDES).map(|i| {
                    let t = i as f64 * std::f64::consts::TAU / SIDES as f64;
                    let (a, b) = (x.rx as f64 * t.cos(), x.ry as f64 * t.sin());
                    pp(x.centre) + p(c * a - s * b, s * a + c * b)
                }).collect();
                Convex { points, radius: 0. }
            }
        }
    }
    /// how far the reference may be from the shape
    fn blur(&self) -> f64 { match self { U::Round(_) => 0., U::Oval(x) => x.rx.max(x.ry) as f64 * 0.5 * (std::f64::consts::PI / SIDES as f64).powi(2) * 1.01 } }
    fn any(&self) -> Any { match self { U::Round(x) => Any(Box::new(x.clone())), U::Oval(x) => Any(Box::new(x.clone())) } }
    fn bits(&self) -> Vec<f32> {
        match self { U::Round(x) => x.pts.iter().flat_map(|q| [q.x, q.y]).chain([x.radius]).collect(),
            U::Oval(x) => vec![x.centre.x, x.centre.y, x.rx, x.ry, x.turn] }
    }
    fn name(&self) -> String { match self { U::Round(x) => format!("round {}{}", x.pts.len().min(9), if x.radius > 0. { "+r" } else { "" }), U::Oval(_) => "oval".into() } }
}
fn gen_user(r: &mut Rng) -> U {
    let f = if r.chance(0.15) { r.log(1e-4, 1e4) } else { r.log(0.1, 10.) };
    // beside the origin of its coordinates, or around it
    let off = if r.chance(0.5) { p(0., 0.) } else { p(r.range(-1., 1.), r.range(-1., 1.)) * (f * r.log(0.01, 5.)) };
    if r.chance(0.2) { return U::Oval(Oval { centre: v(off), rx: f as f32, ry: (f * r.log(0.05, 1.)) as f32, turn: gen_angle(r) }); }
    let q: Vec<P> = match r.below(6) {
        0 => vec![p(0., 0.)],
        1 | 2 => { let (t, l) = (gen_angle(r) as f64, f * r.log(0.05, 1.)); let e = p(t.cos() * l, t.sin() * l); vec![e, -e] }
        3 => { let n = 3 + r.below(5); (0..n).map(|_| p(r.range(-f, f), r.range(-f, f))).collect() }
        4 => gen_poly_lattice(r).iter().map(|a| pp(*a) * f).collect(),
        _ => { let n = 3 + r.below(20); let k = r.log(0.1, 1.); gen_poly_round(r, n, f, f * k).iter().map(|a| pp(*a)).collect() }
    };
    let radius = if q.len() == 1 || r.chance(0.5) { f * r.log(0.02, 1.) } else { 0. };
    U::Round(Round { pts: q.iter().map(|a| v(*a + off)).collect(), radius: radius as f32, last: r.chance(0.5) })
}

// ---------------------------------------------------------------- placements

/// A placement the library does not know: unit complex number, scale and position.
#[derive(Clone, Copy, Debug)]
pub struct Turned { c: f32, s: f32, k: f32, pos: Vec2 }
impl Turned {
    fn rot(&self, v: Vec2) -> Vec2 { Vec2::new(self.c * v.x - self.s * v.y, self.s * v.x + self.c * v.y) }
    fn unrot(&self, v: Vec2) -> Vec2 { Vec2::new(self.c * v.x + self.s * v.y, self.c * v.y - self.s * v.x) }
    fn of(t: &T) -> Turned { Turned { c: (t.ang as f64).cos() as f32, s: (t.ang as f64).sin() as f32, k: t.sc, pos: t.pos } }
}
impl Transformation2d for Turned {
    fn apply_origin(&self) -> Vec2 { self.pos }
    fn apply(&self, v: Vec2) -> Vec2 { self.rot(v * self.k) + self.pos }
    fn unapply(&self, v: Vec2) -> Vec2 { self.unrot(v - self.pos) / self.k }
    fn apply_normal(&self, v: Vec2) -> Vec2 { self.rot(v) }
    fn unapply_normal(&self, v: Vec2) -> Vec2 { self.unrot(v) }
    fn scaling_factor(&self) -> f32 { self.k }
}
impl Invertible for Turned {
    fn inverse(&self) -> Self { let k = 1.0 / self.k; let mut i = Turned { c: self.c, s: -self.s, k, pos: Vec2::ZERO }; i.pos = i.rot(-self.pos * k); i }
}
impl Composable for Turned {
    fn compose(&self, o: &Self) -> Self { Turned { c: self.c * o.c - self.s * o.s, s: self.s * o.c + self.c * o.s, k: self.k * o.k, pos: self.apply(o.pos) } }
}
/// A placement on a grid.
#[derive(Clone, Copy, Debug)]
pub struct Cell { x: i32, y: i32 }
impl Cell { fn at(&self) -> Vec2 { Vec2::new(self.x as f32 * 0.25, self.y as f32 * 0.25) } }
impl Transformation2d for Cell {
    fn apply_origin(&self) -> Vec2 { self.at() }
    fn apply(&self, v: Vec2) -> Vec2 { v + self.at() }
    fn unapply(&self, v: Vec2) -> Vec2 { v - self.at() }
    fn apply_normal(&self, v: Vec2) -> Vec2 { v }
    fn unapply_normal(&self, v: Vec2) -> Vec2 { v }
    fn scaling_factor(&self) -> f32 { 1.0 }
}
impl Invertible for Cell { fn inverse(&self) -> Self { Cell { x: -self.x, y: -self.y } } }
impl Composable for Cell { fn compose(&self, o: &Self) -> Self { Cell { x: self.x + o.x, y: self.y + o.y } } }

fn case_of(ca: &Convex, cb: &Convex, blur: f64, rel: T, dim: Dim) -> (Case, f64) {
    let diff = difference(ca, cb);
    let sd = diff.sd(p(0., 0.));
    let ext = (ca.extent() + cb.points.iter().map(|q| (*q - pp(rel.pos)).len()).fold(0., f64::max) + cb.radius).max(1e-30);
    let c = Case { a: S::Pt, b: S::Pt, rel, dim, place: Place::Uniform, diff, sd, ext, dist: pp(rel.pos).len() };
    let tol = c.tol(TOL_IT) + blur;
    (c, tol)
}
fn judge(c: &Case, x: &R, tol: f64, o: &mut Obs, what: &str, d: &dyn Fn() -> String) -> Verdict {
    check_flags(c, x, tol, o).map_err(|v| tag(v, what, &d()))?;
    check_len(c, x, REL, tol, o).map_err(|v| tag(v, what, &d()))?;
    check_touch(c, x, REL, tol, o).map_err(|v| tag(v, what, &d()))
}
fn run_rel_u<A, B>(a: &A, b: &B, t: &T) -> R where A: DefaultMinkowski<B>, B: ExtremePoint2d {
    match t.kind {
        K::Ident => rel_all(a, b, &IdentityTransform),
        K::Vec => rel_all(a, b, &t.pos),
        K::Translate => rel_all(a, b, &Translate2d::from(t.pos)),
        K::Axis => rel_all(a, b, &AxisTransform2d::new(t.pos, t.sc)),
        K::Full => rel_all(a, b, &t.full()),
    }
}
fn run_world_u<A, B>(a: &A, ta: &T, b: &B, tb: &T, form: usize) -> R where A: DefaultMinkowski<B>, B: ExtremePoint2d {
    match ta.kind {
        K::Ident | K::Vec => world_all(a, &ta.pos, b, &tb.pos, form),
        K::Translate => world_all(a, &Translate2d::from(ta.pos), b, &Translate2d::from(tb.pos), form),
        K::Axis => world_all(a, &AxisTransform2d::new(ta.pos, ta.sc), b, &AxisTransform2d::new(tb.pos, tb.sc), form),
        K::Full => world_all(a, &ta.full(), b, &tb.full(), form),
    }
}

/// other shape of a pair: user-defined, or built in (1..=4 ball, box, polygon, union)
#[derive(Clone, Debug)]
enum Other { User(U), Known(S, bool) }
impl Other {
    fn cvx(&self) -> Convex { match self { Other::User(u) => u.cvx(), Other::Known(s, _) => s.cvx() } }
    fn blur(&self) -> f64 { match self { Other::User(u) => u.blur(), _ => 0. } }
    fn bits(&self) -> Vec<f32> { match self { Other::User(u) => u.bits(), Other::Known(s, _) => s.bits() } }
}
/// run!(a, b, |x, y| e): a user-defined shape first (or second if `$rev`), as its own type or chosen at run time
macro_rules! run { ($a:expr, $b:expr, $dynamic:expr, $rev:expr, |$x:ident, $y:ident| $e:expr) => {{
    macro_rules! second { ($p:expr) => {{ let p = $p;
        macro_rules! go { ($q:expr) => {{ let q = $q; if $rev { let ($x, $y) = (q, p); $e } else { let ($x, $y) = (p, q); $e } }} }
        match $b {
            Other::User(u) if $dynamic => go!(&u.any()), Other::User(U::Round(u)) => go!(u), Other::User(U::Oval(u)) => go!(u),
            Other::Known(s, true) => go!(&s.shape2d()),
            Other::Known(s, _) => match s.kind() { 1 => go!(&s.ball()), 2 => go!(&s.bx()), _ => go!(&s.poly()) },
        } }} }
    match $a { u if $dynamic => second!(&u.any()), U::Round(u) => second!(u), U::Oval(u) => second!(u) }
}} }

pub fn c32(ctx: &Ctx) {
    for kb in 0..5usize {
        let name = ["a user shape", "Ball", "Box2d", "Poly2d", "Shape2d"][kb];
        for rev in [false, true] {
            if kb == 0 && rev { continue; }
            ctx.stream(&format!("user shape {} {name}", if rev { "after" } else { "against" }), ctx.scale(if kb == 0 { 60_000 } else { 30_000 }), |r, o, _| {
                let kind = pick_kind(r);
                let a = gen_user(r);
                let dim = r.pick(&DIMS);
                let b = if kb == 0 { Other::User(gen_user(r)) } else {
                    let k = if kb == 4 { 1 + r.below(3) } else { kb };
                    let s = gen_shape(r, k, dim);
                    Other::Known(if r.chance(0.7) { s.rescaled((a.cvx().extent() / s.cvx().extent() * r.log(0.1, 10.)) as f32) } else { s }, kb == 4)
                };
                let dynamic = r.chance(0.3);
                // first and second shape as queried
                let (cx, cy) = if rev { (b.cvx(), a.cvx()) } else { (a.cvx(), b.cvx()) };
                let mut t = T { kind, pos: Vec2::ZERO, ang: gen_angle(r), sc: if r.chance(0.5) { 1.0 } else { r.log(0.2, 5.) as f32 } }.limited(kind);
                let blur = if rev { b.blur() + a.blur() * t.sc as f64 } else { a.blur() + b.blur() * t.sc as f64 };
                let e = cx.extent() + cy.extent() * t.sc as f64;
                if kind != K::Ident {
                    let th = r.range(0., 6.3);
                    let u = p(th.cos(), th.sin());
                    let m = match r.below(4) {
                        0 if r.chance(0.2) => 0.0, // at the very same position
                        0 => e * r.range(0., 1.2),
                        1 => e * r.log(1e-3, 20.),
                        _ => { // graze: a chosen gap or depth along the direction
                            let d0 = difference(&cx, &cy.transformed(&t.sim()));
                            let gap = r.sign() * r.log(1e-3, 0.3) * e;
                            let (mut lo, mut hi) = (-2.0 * e, 3.0 * e);
                            for _ in 0..30 { let m = 0.5 * (lo + hi); if d0.sd(u * m) < gap { lo = m } else { hi = m } }
                            lo
                        }
                    };
                    t.pos = v(u * m);
                }
                o.fpf(&a.bits()); o.fpf(&b.bits()); o.fpf(&t.bits());
                let d = || format!("user shape {a:?}{}, other {b:?}, {}, placement {t:?}", if dynamic { " (chosen at run time)" } else { "" }, if rev { "user shape second" } else { "user shape first" });
                let (c, tol) = case_of(&cx, &cy.transformed(&t.sim()), blur, t, dim);
                let x = run!(&a, &b, dynamic, rev, |x, y| run_rel_u(x, y, &t));
                judge(&c, &x, tol, o, "relative", &d)?;
                // both placed in the world
                if kind != K::Ident {
                    let far = e * r.log(0.01, 10.);
                    let th = r.range(0., 6.3);
                    let ta = T { kind, pos: v(p(th.cos() * far, th.sin() * far)), ang: gen_angle(r), sc: r.log(0.3, 3.) as f32 }.limited(kind);
                    let s = compose64(&ta.sim(), &t.sim());
                    let tb = T { kind, pos: v(s.pos), ang: ta.ang + t.ang, sc: ta.sc * t.sc }.limited(kind);
                    let (wx, wy) = (cx.transformed(&ta.sim()), cy.transformed(&tb.sim()));
                    let diff = difference(&wx, &wy);
                    let k = ta.sc as f64;
                    let w = Case { sd: diff.sd(p(0., 0.)), diff, rel: tb, ext: c.ext * k, dist: (pp(ta.pos) - pp(tb.pos)).len() + pp(ta.pos).len() + pp(tb.pos).len(), ..c.clone() };
                    let wtol = w.tol(TOL_IT) + blur * k;
                    let f = r.below(4);
                    let y = run!(&a, &b, dynamic, rev, |x, y| run_world_u(x, &ta, y, &tb, f));
                    let dw = || format!("{}, in the world at {ta:?} and {tb:?}, form {f}, exact {}", d(), w.sd);
                    judge(&w, &y, wtol, o, "world", &dw)?;
                    if w.sd.abs() > wtol && c.sd.abs() > tol { same(&x, &y, REL, tol * k + wtol, w.sd, k, o).map_err(|v| tag(v, "world against relative", &dw()))?; }
                    // where the placed shape reaches
                    let dir = gen_dir(r);
                    let cu = if rev { wy } else { wx };
                    let tu = if rev { tb } else { ta };
                    let q = match &a { U::Round(u) => Collider2d::new(u, &tu.full()).extreme_point(dir), U::Oval(u) => u.extreme_point_t(&tu.full(), dir) };
                    let lim = 8e-6 * (cu.points.iter().map(|q| q.len()).fold(0., f64::max) + cu.radius + pp(tu.pos).len()) + a.blur() * tu.sc as f64;
                    is_support(&cu, &Body::new(&cu), dir, q, lim).map_err(|v| tag(v, "placed", &d()))?;
                    o.count("placed extreme points checked", 1);
                }
                o.class(format!("{}{} {name} {:?} {} {}", a.name(), if dynamic { " dyn" } else { "" }, kind, c.relation(), (c.sd.abs() / c.ext).log10().floor().clamp(-4., 2.)));
                o.sample(|| format!("{} -> {x:?}, exact {}", d(), c.sd));
                Ok(())
            });
        }
    }
    // placements defined by the user, under every pair of built-in shapes
    for k in all_pairs() {
        ctx.stream(&format!("user placement {}", pair_name(k)), ctx.scale(30_000), |r, o, _| {
            let c = gen_case(r, k.0, k.1, K::Full, &DIMS);
            fingerprint(o, &c);
            let it = iterative(&c.a, &c.b, k.2);
            let (rel, f) = if it { (REL, TOL_IT) } else { (0.0, TOL_CF) };
            let t = Turned::of(&c.rel);
            let tol = c.tol(f);
            let x = with_pair!(c.a, c.b, k.2, |x, y| rel_all(x, y, &t), |r| x.sdf_rel(y, &t));
            let d = || format!("{} as {t:?}", c.desc());
            check_flags(&c, &x, tol, o).map_err(|v| tag(v, "turned", &d()))?;
            check_len(&c, &x, rel, tol, o).map_err(|v| tag(v, "turned", &d()))?;
            check_touch(&c, &x, rel, tol, o).map_err(|v| tag(v, "turned", &d()))?;
            if c.sd.abs() > tol {
                let y = run_rel(&c.a, &c.b, k.2, &c.rel);
                same(&x, &y, rel, tol, c.sd, 1.0, o).map_err(|v| tag(v, "turned against Transform2d", &d()))?;
            }
            // two placed shapes
            let w = crate::x2d::world_case(r, &c, K::Full);
            let (ta, tb) = (Turned::of(&w.ta), Turned::of(&w.tb));
            let tolw = w.case.tol(f);
            let form = r.below(4);
            if w.case.sd.abs() > tolw {
                let y = with_pair!(c.a, c.b, k.2, |x, y| world_all(x, &ta, y, &tb, form), |r| sdf_world(x, &ta, y, &tb, form));
                let dw = || format!("form {form}, {} as {ta:?} and {tb:?}", w.desc());
                check_flags(&w.case, &y, tolw, o).map_err(|v| tag(v, "turned world", &dw()))?;
                check_len(&w.case, &y, rel, tolw, o).map_err(|v| tag(v, "turned world", &dw()))?;
                check_touch(&w.case, &y, rel, tolw, o).map_err(|v| tag(v, "turned world", &dw()))?;
            }
            // on a grid
            let g = |r: &mut Rng| Cell { x: r.int(-40, 40) as i32, y: r.int(-40, 40) as i32 };
            let (ga, gb) = (g(r), g(r));
            let tt = |g: &Cell| T { kind: K::Vec, pos: g.at(), ang: 0., sc: 1. };
            let wg = crate::x2d::world_of(&c.a, &tt(&ga), &c.b, &tt(&gb), &c);
            let tolg = wg.case.tol(f);
            if wg.case.sd.abs() > tolg {
                let y = with_pair!(c.a, c.b, k.2, |x, y| world_all(x, &ga, y, &gb, form), |r| sdf_world(x, &ga, y, &gb, form));
                let dg = || format!("form {form}, {} as {ga:?} and {gb:?}", wg.desc());
                check_flags(&wg.case, &y, tolg, o).map_err(|v| tag(v, "grid", &dg()))?;
                check_len(&wg.case, &y, rel, tolg, o).map_err(|v| tag(v, "grid", &dg()))?;
                check_touch(&wg.case, &y, rel, tolg, o).map_err(|v| tag(v, "grid", &dg()))?;
            }
            o.class(c.class("user placement "));
            o.sample(|| format!("{} -> {x:?}", d()));
            Ok(())
        });
    }
}
