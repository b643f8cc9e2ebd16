//! C35: the same scene described in another way.
use crate::fw::*;
use crate::gen::*;
use crate::geo::*;
use crate::q2d::*;
use crate::rng::Rng;
use crate::x2d::{compose64, same, tag};
use auburn::col2d::*;

/// Lists the same polygon differently.
fn relist(r: &mut Rng, q: &[Vec2], how: &mut Vec<&'static str>) -> Vec<Vec2> {
    let mut q = q.to_vec();
    let n = q.len();
    if r.chance(0.5) { q.rotate_left(r.below(n)); how.push("starting elsewhere"); }
    if r.chance(0.3) { q.reverse(); how.push("reversed"); }
    if r.chance(0.3) { // points on the edges and inside; the edges of the list as it was
        for _ in 0..1 + r.below(4) {
            let i = r.below(q.len());
            let x = match r.below(3) {
                0 => q[i] * r.unit() as f32,
                1 => { let (a, b) = (pp(q[i]), pp(q[r.below(q.len())])); let t = r.unit(); v(a * t + b * (1. - t)) }
                _ => Vec2::ZERO,
            };
            q.insert(r.below(q.len() + 1), x);
        }
        how.push("with points inside");
    }
    if r.chance(0.4) {
        let n = if r.chance(0.1) { 100 } else { 3 };
        for _ in 0..1 + r.below(n) { let x = q[r.below(q.len())]; let at = r.below(q.len() + 1); q.insert(at, x); }
        how.push("with repetitions");
    }
    if r.chance(0.4) { for i in (1..q.len()).rev() { q.swap(i, r.below(i + 1)); } how.push("in any order"); }
    q
}
fn redescribe(r: &mut Rng, s: &S, how: &mut Vec<&'static str>) -> S {
    match s {
        S::Bx(x, y) if r.chance(0.5) => {
            let q: Poly2d = if r.chance(0.5) { how.push("box as a polygon"); Box2d::with_halfdims(*x, *y).into() } else { how.push("box as corners"); Poly2d::new(&[Vec2::new(-x, -y), Vec2::new(*x, -y), Vec2::new(*x, *y), Vec2::new(-x, *y)]) };
            if r.chance(0.5) { S::Poly(relist(r, &q.points, how)) } else { S::Poly(q.points) }
        }
        S::Poly(q) => S::Poly(relist(r, q, how)),
        _ => s.clone(),
    }
}
fn turned(s: &S, g: f64, quarter: i64) -> Option<S> {
    match s {
        S::Pt | S::Ball(_) => Some(s.clone()),
        S::Bx(x, y) => if quarter >= 0 { Some(if quarter % 2 == 1 { S::Bx(*y, *x) } else { s.clone() }) } else { None },
        S::Poly(q) => { let t = Sim { pos: p(0., 0.), c: g.cos(), s: g.sin(), scale: 1. }; Some(S::Poly(q.iter().map(|a| v(t.rotate(pp(*a)))).collect())) }
    }
}
fn supported(a: &S, b: &S) -> Vec<usize> {
    let (i, j) = (a.kind(), b.kind());
    let mut reps = vec![];
    if CLOSED.iter().chain(ITERATIVE.iter()).any(|k| k.0 == i && k.1 == j && k.2 == 0) { reps.push(0) }
    if i > 0 && j > 0 { reps.push(1) }
    reps
}
/// kinds of placement that can express it
fn kinds(t: &T, turn_matters: bool) -> Vec<K> {
    let mut k = vec![K::Full];
    if t.ang == 0. || !turn_matters { k.push(K::Axis); if t.sc == 1. { k.push(K::Translate); k.push(K::Vec); if t.pos == Vec2::ZERO { k.push(K::Ident) } } }
    k
}

pub fn c35(ctx: &Ctx) {
    for k in all_pairs() {
        ctx.stream(&format!("described otherwise {}", pair_name(k)), ctx.scale(40_000), |r, o, _| {
            let kind = pick_kind(r);
            let c = gen_case(r, k.0, k.1, kind, &DIMS);
            fingerprint(o, &c);
            if c.sd.abs() <= c.tol(TOL_IT) { o.count("undecided: within rounding of touching", 1); return Ok(()); }
            let x = run_rel(&c.a, &c.b, k.2, &c.rel);
            for _ in 0..3 {
                let mut how = vec![];
                let (mut a, mut b, mut t) = (c.a.clone(), c.b.clone(), c.rel);
                // the second shape takes over its turn or its scale
                if r.chance(0.4) && t.ang != 0. { if let Some(s) = turned(&b, t.ang as f64, -1) { b = s; t.ang = 0.; how.push("turn of b in its shape"); } }
                if r.chance(0.4) && t.sc != 1. { let s = b.scaled(t.sc); if s.fits() { b = s; t.sc = 1.; how.push("scale of b in its shape"); } }
                // symmetries of the second shape
                if r.chance(0.3) {
                    let (q, h) = (r.below(4) as i64, std::f64::consts::FRAC_PI_2);
                    if let Some(s) = turned(&b, -(q as f64) * h, q) { if !matches!(b, S::Pt) { b = s; t.ang = (t.ang as f64 + q as f64 * h) as f32; how.push("b turned by quarters"); } }
                }
                if r.chance(0.2) && t.ang.abs() < 8. { t.ang = (t.ang as f64 + r.sign() * std::f64::consts::TAU) as f32; how.push("a full turn more"); }
                // the frame of the first shape is turned or scaled
                let (mut g, mut f) = (0f64, 1f64);
                if r.chance(0.3) {
                    let q = if matches!(a, S::Bx(..)) || r.chance(0.3) { r.below(4) as i64 } else { -1 };
                    let turn = if q >= 0 { q as f64 * std::f64::consts::FRAC_PI_2 } else { r.range(-3., 3.) };
                    if let Some(s) = turned(&a, turn, q) { a = s; g = turn; how.push("frame turned"); }
                }
                if r.chance(0.3) {
                    let k = r.log(0.01, 100.) as f32;
                    let s = a.scaled(k);
                    let s2 = b.scaled(k);
                    if s.fits() && s2.fits() { a = s; f = k as f64; if r.chance(0.5) { t.sc *= k } else { b = s2 } how.push("frame scaled"); }
                }
                let z = compose64(&Sim { pos: p(0., 0.), c: g.cos(), s: g.sin(), scale: f }, &t.sim());
                t.pos = v(z.pos);
                t.ang = (t.ang as f64 + g) as f32;
                if matches!(b, S::Pt | S::Ball(_)) && r.chance(0.3) { t.ang = gen_angle(r); how.push("b turned in place"); }
                if matches!(b, S::Pt) && r.chance(0.3) { t.sc = r.log(0.1, 10.) as f32; how.push("b scaled in place"); }
                let (a, b) = (redescribe(r, &a, &mut how), redescribe(r, &b, &mut how));
                let ks = kinds(&t, !matches!(b, S::Pt | S::Ball(_)));
                let nk = r.pick(&ks);
                if nk != c.rel.kind { how.push("another type of placement"); }
                let t = t.limited(nk);
                let reps = supported(&a, &b);
                if reps.is_empty() { o.count("descriptions without a query", 1); continue; }
                let rep = r.pick(&reps);
                if rep != k.2 { how.push("another representation"); }
                if how.is_empty() { continue; }
                let (rel, tol) = if iterative(&a, &b, rep) || iterative(&c.a, &c.b, k.2) { (REL, c.tol(TOL_IT)) } else { (0.0, c.tol(2.0 * TOL_CF)) };
                let y = run_rel(&a, &b, rep, &t);
                let d = || format!("{} | described as ({}) a={a:?} b={b:?} placement {t:?} representation {rep}, frame turned {g} scaled {f}", c.desc(), how.join(", "));
                // back in the frame of the first description
                let back = |q: Vec2| v(Sim { pos: p(0., 0.), c: g.cos(), s: g.sin(), scale: 1. }.unrotate(pp(q)) * (1. / f));
                let y = R { collides: y.collides, pen: y.pen.map(back), dist: y.dist.map(back), sdfv: (y.sdfv.0, back(y.sdfv.1)), sdf: y.sdf.map(|s| (s as f64 / f) as f32) };
                o.nontrivial();
                check_flags(&c, &y, tol, o).map_err(|v| tag(v, "described", &d()))?;
                check_len(&c, &y, rel, tol, o).map_err(|v| tag(v, "described", &d()))?;
                check_touch(&c, &y, rel, tol, o).map_err(|v| tag(v, "described", &d()))?;
                same(&x, &y, rel, tol, c.sd, 1.0, o).map_err(|v| tag(v, "described", &d()))?;
                // the distance vector is unique, so it is the same one
                if let (Some(p), Some(q)) = (x.dist, y.dist) {
                    let e = (pp(p) - pp(q)).len();
                    if c.sd > 100.0 * tol && !(e <= 0.35 * c.sd) { return violation("direction", format!("distance_to {p:?} against {q:?}; {}", d())); }
                    o.count("distance vectors compared", 1);
                }
                for h in &how { o.class(format!("{} {h} {}", pair_name(k), c.relation())); }
                o.count("descriptions compared", 1);
                o.sample(|| d());
            }
            o.class(c.class(""));
            Ok(())
        });
    }
}
