//! Monitors for 2D placements, rotations, extreme points, bounding boxes and polygon constructors.
use crate::fw::*;
use crate::gen::*;
use crate::geo::*;
use crate::rng::Rng;
use crate::x2d::{gen_dir, is_support, tag};
use auburn::col2d::{local_minkowski_diff, AxisTransform2d, Box2d, Collider2d, Composable, DeltaTransform, ExtremePoint2d, ExtremePointT2d,
    IdentityTransform, Invertible, Point, Poly2d, Rotor2d, SymmetricBoundingBox2d, Transform2d, Transformation2d, Translate2d, Vec2};
use auburn::Quat;

const EPS: f64 = 2.0 * 1.1920929e-7;

/// Reference placement in f64: scale per axis, then rotate, then translate.
#[derive(Clone, Copy, Debug)]
pub struct Aff { pub pos: P, pub ang: f64, pub sx: f64, pub sy: f64 }
impl Aff {
    fn rot(&self, q: P) -> P { let (s, c) = self.ang.sin_cos(); p(c * q.x - s * q.y, s * q.x + c * q.y) }
    fn apply(&self, q: P) -> P { self.rot(p(q.x * self.sx, q.y * self.sy)) + self.pos }
    fn max_s(&self) -> f64 { self.sx.abs().max(self.sy.abs()) }
    fn min_s(&self) -> f64 { self.sx.abs().min(self.sy.abs()) }
}

fn coord(r: &mut Rng) -> f64 {
    if r.chance(0.03) { return r.sign() * r.log(1e-9, 1e9); }
    match r.below(6) { 0 => 0.0, 1 => r.int(-8, 8) as f64 * 0.5, 2 => r.sign() * r.log(1e-4, 1e-1), 3 => r.sign() * r.log(10., 1e4), _ => r.range(-10., 10.) }
}
fn point(r: &mut Rng) -> Vec2 { let x = coord(r); v(p(x, if r.chance(0.05) { x * r.sign() } else { coord(r) })) }
fn scale1(r: &mut Rng) -> f64 { if r.chance(0.03) { return r.log(1e-6, 1e6); } match r.below(4) { 0 => 1.0, 1 => r.pick(&[0.5, 2.0, 4.0, 0.25]), 2 => r.log(1e-2, 1e2), _ => r.log(0.3, 3.) } }
fn angle(r: &mut Rng) -> f32 { if r.chance(0.1) { r.range(-1000., 1000.) as f32 } else { gen_angle(r) } }

#[derive(Clone, Copy, PartialEq, Debug)]
enum Sc { Uniform, PerAxis, PerAxisSigned, UniformSigned }
fn aff(r: &mut Rng, kind: K, sc: Sc, rotate: bool) -> Aff {
    let pos = if kind == K::Ident { Vec2::ZERO } else { point(r) };
    let ang = if kind == K::Full && rotate { angle(r) } else { 0.0 };
    let (mut sx, mut sy) = (scale1(r) as f32, scale1(r) as f32);
    if matches!(sc, Sc::Uniform | Sc::UniformSigned) || kind == K::Axis { sy = sx; }
    if matches!(sc, Sc::PerAxisSigned | Sc::UniformSigned) {
        let (a, b) = (r.chance(0.3), r.chance(0.3));
        if a { sx = -sx }
        if sc == Sc::UniformSigned || kind == K::Axis { if a { sy = -sy } } else if b { sy = -sy }
    }
    if !matches!(kind, K::Full | K::Axis) { sx = 1.0; sy = 1.0; }
    Aff { pos: pp(pos), ang: ang as f64, sx: sx as f64, sy: sy as f64 }
}

/// Runs the closure with the library transformation that expresses the reference placement.
macro_rules! with_t { ($kind:expr, $a:expr, |$t:ident| $e:expr) => { match $kind {
    K::Ident => { let $t = IdentityTransform; $e }
    K::Vec => { let $t = v($a.pos); $e }
    K::Translate => { let $t = Translate2d::from(v($a.pos)); $e }
    K::Axis => { let $t = AxisTransform2d::new(v($a.pos), $a.sx as f32); $e }
    K::Full => { let $t = full(&$a); $e }
} } }
macro_rules! with_ts { ($kind:expr, [$($a:expr),*], |$ts:ident| $e:expr) => { match $kind {
    K::Ident => panic!("harness-internal"),
    K::Vec => { let $ts = [$(v($a.pos)),*]; $e }
    K::Translate => { let $ts = [$(Translate2d::new(v($a.pos))),*]; $e }
    K::Axis => { let $ts = [$(AxisTransform2d::new(v($a.pos), $a.sx as f32)),*]; $e }
    K::Full => { let $ts = [$(full(&$a)),*]; $e }
} } }
fn full(a: &Aff) -> Transform2d {
    Transform2d { pos: v(a.pos), rot: Rotor2d::from_angle(a.ang as f32), scale: Vec2::new(a.sx as f32, a.sy as f32) }
}

fn near(what: &str, got: Vec2, want: P, tol: f64, d: &dyn Fn() -> String, o: &mut Obs) -> Verdict {
    let e = (pp(got) - want).len();
    if !(e <= tol) {
        return violation(what, format!("{what}: got {got:?}, expected ({}, {}), error {e} > {tol}; {}", want.x, want.y, d()));
    }
    o.count("points compared", 1);
    o.max("worst error relative to the rounding slack", if tol > 0. { e / tol } else { 0. });
    Ok(())
}

fn fp_aff(o: &mut Obs, a: &Aff) { o.fpf(&[a.pos.x as f32, a.pos.y as f32, a.ang as f32, a.sx as f32, a.sy as f32]); }
fn key(a: &Aff, kind: K) -> String {
    let l = |x: f64| if x == 0. { "0".to_string() } else { format!("1e{}", x.abs().log10().floor()) };
    format!("{kind:?} pos~{} sx{}{} sy{}{} rot:{}", l(a.pos.len()), if a.sx < 0. { "-" } else { "" }, l(a.sx), if a.sy < 0. { "-" } else { "" }, l(a.sy), a.ang != 0.)
}

pub fn c01(ctx: &Ctx) {
    for kind in KINDS {
        for sc in [Sc::Uniform, Sc::UniformSigned, Sc::PerAxis, Sc::PerAxisSigned] {
            if !matches!(kind, K::Full | K::Axis) && sc != Sc::Uniform { continue; }
            ctx.stream(&format!("inverse {kind:?} {sc:?}"), ctx.scale(150_000), |r, o, _| {
                let a = aff(r, kind, sc, true);
                let q = point(r);
                fp_aff(o, &a); o.fpf(&[q.x, q.y]);
                o.nontrivial();
                let d = || format!("{kind:?} {a:?} point {q:?}");
                let q64 = pp(q);
                let fwd = EPS * 4.0 * (a.pos.len() + a.max_s() * q64.len());
                let back = fwd / a.min_s() + EPS * 4.0 * q64.len();
                // the exact preimage
                let pre = { let (s, c) = a.ang.sin_cos(); let w = q64 - a.pos; p((c * w.x + s * w.y) / a.sx, (-s * w.x + c * w.y) / a.sy) };
                let bwd = EPS * 8.0 * (a.pos.len() + q64.len()) / a.min_s();
                let again = bwd * a.max_s() + EPS * 8.0 * (a.pos.len() + q64.len());
                with_t!(kind, a, |t| {
                    near("apply", t.apply(q), a.apply(q64), fwd, &d, o)?;
                    near("unapply after apply", t.unapply(t.apply(q)), q64, back, &d, o)?;
                    near("unapply", t.unapply(q), pre, bwd, &d, o)?;
                    near("apply after unapply", t.apply(t.unapply(q)), q64, again, &d, o)?;
                    near("apply_origin", t.apply_origin(), pp(t.apply(Vec2::ZERO)), EPS * a.pos.len(), &d, o)?;
                });
                let invertible = kind != K::Ident && (a.sx == a.sy || a.ang == 0.0);
                if invertible {
                    with_ts!(kind, [a], |ts| {
                        let [t] = ts;
                        let i = t.inverse();
                        near("inverse of applied", i.apply(t.apply(q)), q64, 2.0 * back, &d, o)?;
                        near("applied inverse", t.apply(i.apply(q)), q64, 2.0 * again, &d, o)?;
                        near("inverse is unapply", i.apply(q), pre, 2.0 * bwd, &d, o)?;
                        near("inverse of inverse", i.inverse().apply(q), a.apply(q64), 4.0 * fwd * (a.max_s() / a.min_s()), &d, o)?;
                        near("unapply of inverse", i.unapply(q), a.apply(q64), 4.0 * fwd * (a.max_s() / a.min_s()), &d, o)?;
                    });
                }
                o.class(key(&a, kind));
                o.sample(d);
                Ok(())
            });
        }
    }
}

pub fn c02(ctx: &Ctx) {
    for kind in [K::Vec, K::Translate, K::Axis, K::Full] {
        for (name, sc, rot) in [("uniform", Sc::UniformSigned, true), ("per-axis unrotated", Sc::PerAxisSigned, false)] {
            if kind != K::Full && name != "uniform" { continue; }
            ctx.stream(&format!("compose {kind:?} {name}"), ctx.scale(200_000), |r, o, _| {
                let (a, b, c) = (aff(r, kind, sc, rot), aff(r, kind, sc, rot), aff(r, kind, sc, rot));
                let q = point(r);
                let q64 = pp(q);
                for x in [&a, &b, &c] { fp_aff(o, x); }
                o.fpf(&[q.x, q.y]);
                o.nontrivial();
                let d = || format!("{kind:?} a={a:?} b={b:?} c={c:?} point {q:?}");
                let bc = b.pos.len() + b.max_s() * (c.pos.len() + c.max_s() * q64.len());
                let ab = a.pos.len() + a.max_s() * (b.pos.len() + b.max_s() * q64.len());
                let abc = a.pos.len() + a.max_s() * bc;
                let k = EPS * 8.0;
                let id = Aff { pos: p(0., 0.), ang: 0., sx: 1., sy: 1. };
                with_ts!(kind, [a, b, c, id], |ts| {
                    let [ta, tb, tc, ti] = ts;
                    near("compose", ta.compose(&tb).apply(q), a.apply(b.apply(q64)), k * ab, &d, o)?;
                    near("compose chain", ta.compose(&tb).apply(q), pp(ta.apply(tb.apply(q))), k * ab, &d, o)?;
                    near("associative left", ta.compose(&tb).compose(&tc).apply(q), a.apply(b.apply(c.apply(q64))), k * 2.0 * abc, &d, o)?;
                    near("associative right", ta.compose(&tb.compose(&tc)).apply(q), a.apply(b.apply(c.apply(q64))), k * 2.0 * abc, &d, o)?;
                    near("identity on the left", ti.compose(&ta).apply(q), a.apply(q64), k * (a.pos.len() + a.max_s() * q64.len()), &d, o)?;
                    near("identity on the right", ta.compose(&ti).apply(q), a.apply(q64), k * (a.pos.len() + a.max_s() * q64.len()), &d, o)?;
                    // relative transform
                    let rel = ta.delta_transform(&tb);
                    let want = { let w = b.apply(q64) - a.pos; let (s, c) = a.ang.sin_cos(); p((c * w.x + s * w.y) / a.sx, (-s * w.x + c * w.y) / a.sy) };
                    let m = a.pos.len() + b.pos.len() + b.max_s() * q64.len();
                    near("delta", rel.apply(q), want, 2.0 * k * m / a.min_s(), &d, o)?;
                    near("a after delta is b", ta.apply(rel.apply(q)), b.apply(q64), 4.0 * k * m * a.max_s() / a.min_s(), &d, o)?;
                    near("a composed with delta is b", ta.compose(&rel).apply(q), b.apply(q64), 4.0 * k * m * a.max_s() / a.min_s(), &d, o)?;
                    near("delta to itself", ta.delta_transform(&ta).apply(q), q64, 4.0 * k * (a.pos.len() * 2.0 + a.max_s() * q64.len()) / a.min_s(), &d, o)?;
                    // un-applying and directions chain as well
                    let comp = ta.compose(&tb);
                    let back = tb.unapply(ta.unapply(q));
                    near("unapply of composition", comp.unapply(q), pp(back), 4.0 * k * ((q64.len() + a.pos.len()) / a.min_s() + b.pos.len()) / b.min_s(), &d, o)?;
                    near("direction through composition", comp.apply_normal(q), pp(ta.apply_normal(tb.apply_normal(q))), k * q64.len(), &d, o)?;
                    if !(a.sx < 0. || a.sy < 0. || b.sx < 0. || b.sy < 0.) && (a.sx == a.sy && b.sx == b.sy) {
                        let want = a.sx * b.sx;
                        let got = comp.scaling_factor() as f64;
                        if !((got - want).abs() <= k * want) { return violation("scaling_factor", format!("scaling factor of the composition is {got}, expected {want}; {}", d())); }
                    }
                });
                o.class(format!("{name} | {}", key(&a, kind)));
                o.sample(d);
                Ok(())
            });
        }
    }
    ctx.stream("default placements", ctx.scale(100_000), |r, o, _| {
        let q = point(r);
        let q64 = pp(q);
        let (b, c) = (aff(r, K::Full, Sc::UniformSigned, true), aff(r, K::Axis, Sc::UniformSigned, false));
        fp_aff(o, &b); fp_aff(o, &c); o.fpf(&[q.x, q.y]);
        o.nontrivial();
        let d = || format!("point {q:?}, composed with {b:?} and {c:?}");
        let k = EPS * 8.0;
        macro_rules! one { ($name:expr, $t:expr) => {{
            let t = $t;
            near(concat!("default ", $name), t.apply(q), q64, EPS * q64.len(), &d, o)?;
            near(concat!("default un-applied ", $name), t.unapply(q), q64, EPS * q64.len(), &d, o)?;
            near(concat!("default direction ", $name), t.apply_normal(q), q64, EPS * q64.len(), &d, o)?;
        }} }
        macro_rules! chained { ($name:expr, $new:expr, $other:expr, $a:expr) => {{
            one!($name, $new);
            let (t, u, a) = ($new, $other, $a);
            let m = k * (a.pos.len() + a.max_s() * q64.len());
            near(concat!("inverse of default ", $name), t.inverse().apply(q), q64, k * q64.len(), &d, o)?;
            near(concat!("default before ", $name), t.compose(&u).apply(q), a.apply(q64), m, &d, o)?;
            near(concat!("default after ", $name), u.compose(&t).apply(q), a.apply(q64), m, &d, o)?;
            near(concat!("relative to default ", $name), t.delta_transform(&u).apply(q), a.apply(q64), m, &d, o)?;
        }} }
        one!("IdentityTransform", IdentityTransform);
        let only = |a: &Aff| Aff { ang: 0., sx: 1., sy: 1., ..*a };
        chained!("Vec2", Vec2::default(), v(b.pos), only(&b));
        chained!("Translate2d", Translate2d::default(), Translate2d::new(v(b.pos)), only(&b));
        chained!("AxisTransform2d", AxisTransform2d::default(), AxisTransform2d::new(v(c.pos), c.sx as f32), c);
        chained!("Transform2d", Transform2d::default(), full(&b), b);
        near("default rotation", Rotor2d::default() * q, q64, EPS * q64.len(), &d, o)?;
        o.class(key(&b, K::Full));
        Ok(())
    });
    ctx.stream("builders of Transform2d", ctx.scale(300_000), |r, o, _| {
        let sc = r.pick(&[Sc::Uniform, Sc::PerAxis, Sc::PerAxisSigned]);
        let a = aff(r, K::Full, sc, true);
        let q = point(r);
        let q64 = pp(q);
        fp_aff(o, &a); o.fpf(&[q.x, q.y]);
        o.nontrivial();
        let (pos, ang, s) = (v(a.pos), a.ang as f32, Vec2::new(a.sx as f32, a.sy as f32));
        let rot = Rotor2d::from_angle(ang);
        let d = || format!("{a:?} point {q:?}");
        let fwd = EPS * 4.0 * (a.pos.len() + a.max_s() * q64.len());
        let all = [
            ("translation,rotation,scale", Transform2d::from_translation(pos).with_rotation(rot).with_scale(s)),
            ("translation,scale,angle", Transform2d::from_translation(pos).with_scale(s).with_angle(ang)),
            ("angle,scale,translation", Transform2d::from_angle(ang).with_scale(s).with_translation(pos)),
            ("angle,translation,scale", Transform2d::from_angle(ang).with_translation(pos).with_scale(s)),
            ("rotation,scale,translation", Transform2d::from_rotation(rot).with_scale(s).with_translation(pos)),
            ("scale,angle,translation", Transform2d::from_scale(s).with_angle(ang).with_translation(pos)),
            ("scale,translation,rotation", Transform2d::from_scale(s).with_translation(pos).with_rotation(rot)),
            ("identity", Transform2d::IDENTITY.with_translation(pos).with_rotation(rot).with_scale(s)),
            ("default", Transform2d::default().with_angle(ang).with_scale(s).with_translation(pos)),
            ("replaced", Transform2d::from_angle(1.0).with_scale(Vec2::new(3., 4.)).with_translation(Vec2::X).with_translation(pos).with_angle(ang).with_scale(s)),
            ("literal", Transform2d { pos, rot, scale: s }),
        ];
        for (n, t) in &all { near(&format!("builder {n}"), t.apply(q), a.apply(q64), fwd, &d, o)?; }
        let only = |pos: P, ang: f64, sx: f64, sy: f64| Aff { pos, ang, sx, sy };
        near("from_translation alone", Transform2d::from_translation(pos).apply(q), only(a.pos, 0., 1., 1.).apply(q64), fwd + EPS * 4. * q64.len(), &d, o)?;
        near("from_angle alone", Transform2d::from_angle(ang).apply(q), only(p(0., 0.), a.ang, 1., 1.).apply(q64), EPS * 4. * q64.len(), &d, o)?;
        near("from_rotation alone", Transform2d::from_rotation(rot).apply(q), only(p(0., 0.), a.ang, 1., 1.).apply(q64), EPS * 4. * q64.len(), &d, o)?;
        near("from_scale alone", Transform2d::from_scale(s).apply(q), only(p(0., 0.), 0., a.sx, a.sy).apply(q64), fwd, &d, o)?;
        near("identity alone", Transform2d::IDENTITY.apply(q), q64, 0.0, &d, o)?;
        near("default alone", Transform2d::default().apply(q), q64, 0.0, &d, o)?;
        near("Translate2d::default", Translate2d::default().apply(q), q64, 0.0, &d, o)?;
        near("Translate2d::new", Translate2d::new(pos).apply(q), q64 + a.pos, fwd + EPS * 4. * q64.len(), &d, o)?;
        o.class(key(&a, K::Full));
        Ok(())
    });
}

fn wrap(a: f64) -> f64 { let t = std::f64::consts::TAU; let x = a.rem_euclid(t); if x > t / 2. { x - t } else { x } }

pub fn c03(ctx: &Ctx) {
    ctx.stream("rotor", ctx.scale(400_000), |r, o, _| {
        let (a, b) = (angle(r), angle(r));
        let q = point(r);
        o.fpf(&[a, b, q.x, q.y]);
        o.nontrivial();
        let d = || format!("angles {a} {b} vector {q:?}");
        let (ra, rb) = (Rotor2d::from_angle(a), Rotor2d::from_angle(b));
        let rot = |x: f64, w: P| Aff { pos: p(0., 0.), ang: x, sx: 1., sy: 1. }.rot(w);
        let q64 = pp(q);
        let k = EPS * 4.0 * q64.len();
        near("rotate", ra * q, rot(a as f64, q64), k, &d, o)?;
        near("product adds angles", (ra * rb) * q, rot(a as f64 + b as f64, q64), 2.0 * k, &d, o)?;
        near("product applies right then left", (ra * rb) * q, pp(ra * (rb * q)), 2.0 * k, &d, o)?;
        near("inverse", ra.inverse() * q, rot(-a as f64, q64), k, &d, o)?;
        near("inverse undoes", ra.inverse() * (ra * q), q64, 2.0 * k, &d, o)?;
        near("identity", Rotor2d::IDENTITY * q, q64, 0.0, &d, o)?;
        near("default", Rotor2d::default() * q, q64, 0.0, &d, o)?;
        for (n, got, want) in [("angle", ra.angle(), a as f64), ("angle of product", (ra * rb).angle(), a as f64 + b as f64), ("angle of inverse", ra.inverse().angle(), -a as f64)] {
            let e = wrap(got as f64 - want).abs();
            if !(e <= 2e-6) { return violation(n, format!("{n} is {got}, expected {want} modulo a full turn; {}", d())); }
            o.count("angles compared", 1);
        }
        o.class(format!("quadrant {} {}", (wrap(a as f64) / 0.785398).floor(), (wrap(b as f64) / 0.785398).floor()));
        o.sample(d);
        Ok(())
    });
    ctx.stream("rotor chains keep length", ctx.scale(20_000), |r, o, _| {
        // long products: the length error grows at most linearly
        let n = 1 + r.below(200);
        let mut acc = Rotor2d::IDENTITY;
        let mut sum = 0.0f64;
        for _ in 0..n { let a = angle(r); if r.chance(0.3) { acc = acc * Rotor2d::from_angle(a).inverse(); sum -= a as f64 } else { acc = Rotor2d::from_angle(a) * acc; sum += a as f64 } }
        let q = v(p(r.range(-5., 5.), r.range(-5., 5.)));
        o.fpf(&[q.x, q.y]); o.fp(n);
        o.nontrivial();
        near("long product", acc * q, Aff { pos: p(0., 0.), ang: sum, sx: 1., sy: 1. }.rot(pp(q)), EPS * (n as f64 + 4.0) * pp(q).len() * 2.0, &|| format!("{n} rotations, sum {sum}"), o)?;
        o.class(format!("chain of 1e{}", (n as f64).log10().floor()));
        Ok(())
    });
    ctx.stream("quaternion", ctx.scale(400_000), |r, o, _| {
        // unit quaternions: pure Z, general, near a half turn about an axis of the plane
        let (qx, qy, qz, qw) = match r.below(4) {
            0 => { let h = angle(r) as f64 / 2.0; (0., 0., h.sin(), h.cos()) }
            1 => { let (a, b) = (r.log(1e-4, 0.5), r.range(0., 6.3)); let c = (1.0 - a * a).sqrt(); let t = r.range(0., 6.3); (c * t.cos(), c * t.sin(), a * b.sin(), a * b.cos()) }
            _ => { let mut g = || { let (u, w): (f64, f64) = (r.unit().max(1e-12), r.unit()); (-2.0 * u.ln()).sqrt() * (w * std::f64::consts::TAU).cos() };
                let (a, b, c, e) = (g(), g(), g(), g()); let l = (a * a + b * b + c * c + e * e).sqrt(); (a / l, b / l, c / l, e / l) }
        };
        let quat = Quat::from_xyzw(qx as f32, qy as f32, qz as f32, qw as f32);
        let (z, w) = (quat.z as f64, quat.w as f64);
        let n = (z * z + w * w).sqrt();
        if n < 1e-4 { o.count("undecided: half turn about an axis of the plane has no twist", 1); return Ok(()); }
        let q = point(r);
        o.fpf(&[quat.x, quat.y, quat.z, quat.w, q.x, q.y]);
        o.nontrivial();
        let d = || format!("quaternion {quat:?} vector {q:?}");
        let ang = 2.0 * z.atan2(w);
        let rot = Rotor2d::from_quaternion(quat);
        let want = Aff { pos: p(0., 0.), ang, sx: 1., sy: 1. }.rot(pp(q));
        near("from_quaternion", rot * q, want, EPS * 8.0 * pp(q).len(), &d, o)?;
        // -q is the same rotation
        near("negated quaternion", Rotor2d::from_quaternion(-quat) * q, want, EPS * 8.0 * pp(q).len(), &d, o)?;
        let e = wrap(rot.angle() as f64 - ang).abs();
        if !(e <= 4e-6) { return violation("quaternion angle", format!("angle {} expected {ang}; {}", rot.angle(), d())); }
        o.class(format!("twist {} tilt {}", (wrap(ang) / 0.4).floor(), (n * 10.0).floor()));
        Ok(())
    });
    for kind in KINDS {
        ctx.stream(&format!("directions {kind:?}"), ctx.scale(150_000), |r, o, _| {
            let sc = r.pick(&[Sc::Uniform, Sc::PerAxis]);
            let a = aff(r, kind, sc, true);
            let q = point(r);
            let q64 = pp(q);
            fp_aff(o, &a); o.fpf(&[q.x, q.y]);
            o.nontrivial();
            let d = || format!("{kind:?} {a:?} direction {q:?}");
            let k = EPS * 4.0 * q64.len();
            with_t!(kind, a, |t| {
                near("apply_normal", t.apply_normal(q), a.rot(q64), k, &d, o)?;
                near("unapply_normal", t.unapply_normal(q), Aff { ang: -a.ang, ..a }.rot(q64), k, &d, o)?;
                near("unapply_normal after apply_normal", t.unapply_normal(t.apply_normal(q)), q64, 2.0 * k, &d, o)?;
                near("apply_normal after unapply_normal", t.apply_normal(t.unapply_normal(q)), q64, 2.0 * k, &d, o)?;
                if a.sx == a.sy {
                    let s = t.scaling_factor() as f64;
                    if !((s - a.sx).abs() <= EPS * a.sx) { return violation("scaling_factor", format!("scaling factor {s}, expected {}; {}", a.sx, d())); }
                }
            });
            o.class(key(&a, kind));
            Ok(())
        });
    }
}

fn any_dim(r: &mut Rng) -> Dim { r.pick(&DIMS) }

pub fn c04(ctx: &Ctx) {
    for kind in 0..4usize {
        let name = ["Point", "Ball", "Box2d", "Poly2d"][kind];
        ctx.stream(&format!("extreme point {name}"), ctx.scale(250_000), |r, o, _| {
            let dim = any_dim(r);
            let any = kind == 3 && r.chance(0.4);
            let s = if any { S::Poly(gen_poly_any(r)) } else { gen_shape(r, kind, dim) };
            let cv = s.cvx();
            let body = Body::new(&cv);
            let dir = gen_dir(r);
            if any { o.count(if body.sd(p(0., 0.)) > 0. { "polygons beside the origin" } else { "polygons around the origin, any vertex order" }, 1) }
            o.fpf(&s.bits()); o.fpf(&[dir.x, dir.y]);
            o.nontrivial();
            let tol = 4e-6 * cv.extent();
            let d = || format!("{s:?}");
            let raw = match kind { 0 => Point.extreme_point(dir), 1 => s.ball().extreme_point(dir), 2 => s.bx().extreme_point(dir), _ => s.poly().extreme_point(dir) };
            is_support(&cv, &body, dir, raw, tol).map_err(|v| tag(v, "local", &d()))?;
            if kind > 0 { is_support(&cv, &body, dir, s.shape2d().extreme_point(dir), tol).map_err(|v| tag(v, "union", &d()))?; }
            o.count("extreme points checked", 2);
            if kind == 1 {
                let want = pp(dir) * (cv.radius / pp(dir).len());
                if (pp(raw) - want).len() > tol { return violation("ball", format!("extreme point {raw:?} of {s:?} along {dir:?}, expected {want:?}")); }
            }
            // placed by every transformation type
            let tk = pick_k(r);
            let t = placed(r, tk, cv.extent());
            o.fpf(&t.bits());
            let cw = cv.transformed(&t.sim());
            let bw = Body::new(&cw);
            let tolw = 4e-6 * (cw.points.iter().map(|q| q.len()).fold(0., f64::max) + cw.radius + pp(t.pos).len());
            let dw = || format!("{s:?} at {t:?}");
            macro_rules! check { ($sh:expr) => {{ let sh = &$sh;
                macro_rules! go { ($t:expr) => {{ let t = &$t; (sh.extreme_point_t(t, dir), Collider2d::new(sh, t).extreme_point(dir)) }} }
                let (x, y) = match tk { K::Ident => go!(IdentityTransform), K::Vec => go!(t.pos), K::Translate => go!(Translate2d::from(t.pos)),
                    K::Axis => go!(AxisTransform2d::new(t.pos, t.sc)), K::Full => go!(t.full()) };
                is_support(&cw, &bw, dir, x, tolw).map_err(|v| tag(v, "placed", &dw()))?;
                is_support(&cw, &bw, dir, y, tolw).map_err(|v| tag(v, "collider", &dw()))?;
                o.count("placed extreme points checked", 2);
            }} }
            match kind { 0 => check!(Point), 1 => check!(s.ball()), 2 => check!(s.bx()), _ => check!(s.poly()) }
            if kind > 0 { check!(s.shape2d()) }
            o.class(format!("{name} {dim:?} {tk:?} octant {}", (wrap((dir.y as f64).atan2(dir.x as f64)) / 0.785398163).floor()));
            o.sample(|| format!("{} along {dir:?} -> {raw:?}", dw()));
            Ok(())
        });
    }
    for ka in 0..4usize { for kb in 0..4usize {
        let n = ["Point", "Ball", "Box2d", "Poly2d"];
        // the difference of two placed shapes, whose extreme points the iterative queries walk
        ctx.stream(&format!("difference {}-{}", n[ka], n[kb]), ctx.scale(60_000), |r, o, _| {
            let tk = pick_k(r);
            let c = gen_case(r, ka, kb, tk, &DIMS);
            let dir = gen_dir(r);
            crate::q2d::fingerprint(o, &c); o.fpf(&[dir.x, dir.y]);
            o.nontrivial();
            let cb = c.b.cvx().transformed(&c.rel.sim());
            let ca = c.a.cvx();
            let neg = Convex { points: ca.points.iter().flat_map(|x| cb.points.iter().map(move |y| *x - *y)).collect(), radius: ca.radius + cb.radius };
            let tol = 4e-6 * (c.ext + c.dist);
            macro_rules! one { ($x:expr, $y:expr) => {{ let (x, y) = (&$x, &$y);
                macro_rules! go { ($t:expr) => {{ let t = &$t; local_minkowski_diff::LocalMinkowskiDiff2d::raw(x, y, t).extreme_point(dir) }} }
                match tk { K::Ident => go!(IdentityTransform), K::Vec => go!(c.rel.pos), K::Translate => go!(Translate2d::from(c.rel.pos)),
                    K::Axis => go!(AxisTransform2d::new(c.rel.pos, c.rel.sc)), K::Full => go!(c.rel.full()) } }} }
            macro_rules! snd { ($x:expr) => { match kb { 0 => one!($x, Point), 1 => one!($x, c.b.ball()), 2 => one!($x, c.b.bx()), _ => one!($x, c.b.poly()) } } }
            // a ball under scale is handled by its extreme_point, which scales with the placement
            let q = match ka { 0 => snd!(Point), 1 => snd!(c.a.ball()), 2 => snd!(c.a.bx()), _ => snd!(c.a.poly()) };
            is_support(&neg, &c.diff, dir, q, tol).map_err(|v| tag(v, "difference", &c.desc()))?;
            o.count("difference extreme points checked", 1);
            o.class(c.class(""));
            Ok(())
        });
    } }
}
fn pick_k(r: &mut Rng) -> K { r.pick(&[K::Ident, K::Vec, K::Translate, K::Axis, K::Full, K::Full, K::Full]) }
fn placed(r: &mut Rng, tk: K, ext: f64) -> T {
    let m = ext.max(0.01) * match r.below(3) { 0 => 0.0, 1 => r.log(0.01, 1.), _ => r.log(1., 100.) };
    let th = r.range(0., 6.3);
    T { kind: tk, pos: v(p(m * th.cos(), m * th.sin())), ang: gen_angle(r), sc: if r.chance(0.3) { 1.0 } else { r.log(0.05, 20.) as f32 } }.limited(tk)
}

pub fn c05(ctx: &Ctx) {
    ctx.stream("bounding boxes", ctx.scale(400_000), |r, o, _| {
        let kind = r.below(4);
        let dim = any_dim(r);
        let s = match kind { 3 if r.chance(0.4) => { // arbitrary vertex lists, also not around the origin
                let n = 1 + r.below(12); let f = if r.chance(0.3) { r.log(1e-15, 1e15) } else { r.log(0.01, 1000.) };
                let off = p(r.range(-2., 2.), r.range(-2., 2.)) * if r.chance(0.5) { 0.0 } else { f };
                S::Poly((0..n).map(|_| v(p(r.range(-f, f), r.range(-f, f)) + off)).collect()) }
            _ => {
                let s = gen_shape(r, kind, dim);
                // any size: the box is a selection of coordinates, whatever their magnitude
                if r.chance(0.3) { let f = r.log(1e-12, 1e12) as f32; match s {
                    S::Ball(x) => S::Ball(x * f), S::Bx(x, y) => S::Bx(x * f, y * f), S::Poly(q) => S::Poly(q.iter().map(|w| *w * f).collect()), s => s } } else { s }
            } };
        let cv = s.cvx();
        o.fpf(&s.bits()); o.fp(kind);
        o.nontrivial();
        let bb = match kind { 0 => Point.symmetric_bounding_box(), 1 => s.ball().symmetric_bounding_box(), 2 => s.bx().symmetric_bounding_box(), _ => s.poly().symmetric_bounding_box() };
        let (wx, wy) = cv.points.iter().fold((0f64, 0f64), |(x, y), q| (x.max(q.x.abs()), y.max(q.y.abs())));
        let (wx, wy) = (wx + cv.radius, wy + cv.radius);
        let tol = 1e-6;
        for (n, got, want) in [("x", bb.halfsize.x, wx), ("y", bb.halfsize.y, wy)] {
            if !((got as f64) >= want * (1.0 - tol)) { return violation("does-not-contain", format!("bounding box of {s:?} is {bb:?}, needs half size {n} of {want}")); }
            if !((got as f64) <= want * (1.0 + tol)) { return violation("not-smallest", format!("bounding box of {s:?} is {bb:?}, the smallest half size {n} is {want}")); }
        }
        o.count("bounding boxes compared", 1);
        o.class(format!("{} {dim:?} {}", ["Point", "Ball", "Box2d", "Poly2d"][kind], cv.points.len()));
        o.sample(|| format!("{s:?} -> {bb:?}"));
        Ok(())
    });
    ctx.stream("cover sequences", ctx.scale(200_000), |r, o, _| {
        let f = if r.chance(0.3) { r.log(1e-15, 1e15) } else { r.log(0.01, 100.) };
        let mut b = if r.chance(0.3) { Box2d::with_halfdims(0., 0.) } else if r.chance(0.5) { Box2d::new(v(p(r.range(0., f), r.range(0., f)))) } else { Box2d::default() };
        let (mut wx, mut wy) = (b.halfsize.x as f64, b.halfsize.y as f64);
        let n = 1 + r.below(20);
        let mut log = vec![];
        for _ in 0..n {
            let q = match r.below(5) {
                0 => v(p(r.range(-1., 1.) * wx, r.range(-1., 1.) * wy)), // inside
                1 => Vec2::new(b.halfsize.x * if r.chance(0.5) { -1. } else { 1. }, b.halfsize.y), // corner
                2 => v(p(r.range(-f, f), 0.0)),
                3 => v(p(0.0, r.range(-f, f))),
                _ => v(p(r.range(-f, f), r.range(-f, f))),
            };
            let before = b;
            let inside = q.x.abs() <= b.halfsize.x && q.y.abs() <= b.halfsize.y;
            b.cover(&q);
            log.push(q);
            wx = wx.max(q.x.abs() as f64);
            wy = wy.max(q.y.abs() as f64);
            let d = || format!("covering {log:?} gave {b:?}, previous {before:?}, smallest is ({wx}, {wy})");
            if b.halfsize.x < before.halfsize.x || b.halfsize.y < before.halfsize.y { return violation("shrunk", d()); }
            if inside && b != before { return violation("grew for an inside point", d()); }
            let e = ((b.halfsize.x as f64 - wx).abs() / wx.max(1e-30)).max((b.halfsize.y as f64 - wy).abs() / wy.max(1e-30));
            if !(e <= 1e-6) && (b.halfsize.x as f64 != wx || b.halfsize.y as f64 != wy) { return violation("not the smallest box", d()); }
            o.count("cover steps compared", 1);
            o.fpf(&[q.x, q.y]);
        }
        o.nontrivial();
        o.class(format!("cover {n}"));
        Ok(())
    });
}

pub fn c06(ctx: &Ctx) {
    ctx.stream("regular polygons", ctx.scale(60_000), |r, o, i| {
        let n = if i < 400 { (i / 2) as usize + 1 } else if r.chance(0.002) { r.log(300., 20000.) as usize } else { 1 + r.below(300) };
        let radius = if r.chance(0.3) { r.log(1e-9, 1e9) } else { r.log(1e-3, 1e3) } as f32;
        o.fp(n); o.fpf(&[radius]);
        o.nontrivial();
        for upright in [false, true] {
            let q = if upright { Poly2d::regular_upright(n, radius) } else { Poly2d::regular(n, radius) };
            let d = || format!("regular{}({n}, {radius}) = {:?}", if upright { "_upright" } else { "" }, &q.points[..q.points.len().min(8)]);
            if q.points.len() != n { return violation("count", format!("{} vertices; {}", q.points.len(), d())); }
            let start = if upright { p(0., 1.) } else { p(1., 0.) };
            let tol = 4e-6 * radius as f64;
            if (pp(q.points[0]) - start * radius as f64).len() > tol { return violation("start", d()); }
            // set of directions: evenly spaced, all present, consistent turning
            let step = std::f64::consts::TAU / n as f64;
            let mut dir = 0.0;
            for (j, w) in q.points.iter().enumerate() {
                let w = pp(*w);
                if (w.len() - radius as f64).abs() > tol { return violation("radius", format!("vertex {j} at distance {}; {}", w.len(), d())); }
                let ang = start.cross(w).atan2(start.dot(w));
                if j == 1 && n > 2 { dir = ang.signum(); }
                let want = if j == 0 || n <= 2 { j as f64 * step } else { dir * j as f64 * step };
                if wrap(ang - want).abs() > 4e-6 { return violation("spacing", format!("vertex {j} at angle {ang}, expected {want}; {}", d())); }
                o.count("vertices compared", 1);
            }
        }
        o.class(format!("regular n={}", n.min(40)));
        o.sample(|| format!("regular {n} {radius}"));
        Ok(())
    });
    ctx.stream("boxes and vertex lists", ctx.scale(200_000), |r, o, _| {
        let f = if r.chance(0.3) { r.log(1e-9, 1e9) } else { r.log(1e-3, 1e3) };
        let (x, y) = ((f * r.unit()) as f32, (f * r.unit()) as f32);
        let q = Poly2d::from(Box2d::with_halfdims(x, y));
        let mut got: Vec<(u32, u32)> = q.points.iter().map(|w| (w.x.to_bits(), w.y.to_bits())).collect();
        let mut want: Vec<(u32, u32)> = [(x, y), (-x, y), (x, -y), (-x, -y)].iter().map(|w| (w.0.to_bits(), w.1.to_bits())).collect();
        got.sort(); want.sort();
        if got != want { return violation("corners", format!("box {x}x{y} became {:?}", q.points)); }
        let into: Poly2d = Box2d::new(Vec2::new(x, y)).into();
        if into.points.len() != 4 { return violation("corners", "into".to_string()); }
        let n = r.below(12);
        let pts: Vec<Vec2> = (0..n).map(|_| v(p(r.range(-f, f), r.range(-f, f)))).collect();
        let w = Poly2d::new(&pts);
        if w.points != pts { return violation("points", format!("{pts:?} became {:?}", w.points)); }
        if !Poly2d::default().points.is_empty() { return violation("default", "default polygon is not empty"); }
        o.fpf(&[x, y]); o.fp(n);
        o.nontrivial();
        o.class(format!("list {n}"));
        o.count("polygons compared", 2);
        Ok(())
    });
    ctx.stream("strict check", ctx.scale(500_000), |r, o, _| {
        // valid polygons, and ones damaged by moving, adding, mirroring or shifting vertices
        let mut pts = match r.below(4) {
            0 => gen_poly_lattice(r),
            1 => { let n = 3 + r.below(8); (0..n).map(|_| v(p(r.range(-2., 2.), r.range(-2., 2.)))).collect() }
            2 => { let n = 3 + r.below(10); let x = r.log(0.1, 10.); gen_poly_round(r, n, x, x) }
            // sometimes a great many vertices, damaged anywhere
            3 if r.chance(0.02) => { let n = r.int(41, 300) as usize; let x = r.log(0.1, 10.); if r.chance(0.5) { gen_poly_round(r, n, x, x) } else { Poly2d::regular(n, x as f32).points } }
            _ => { let n = 1 + r.below(12); Poly2d::regular(n, r.log(0.1, 10.) as f32).points }
        };
        if r.chance(0.4) {
            let i = r.below(pts.len());
            match r.below(4) {
                0 => pts[i] *= r.log(0.2, 3.) as f32,
                1 => { let q = pts[i]; pts.push(q * r.log(0.3, 0.99) as f32) }
                2 => { let off = v(p(r.range(-1., 1.), r.range(-1., 1.))); for q in &mut pts { *q += off } }
                _ => { let q = pts[i]; pts.push(q) }
            }
        }
        if pts.len() > 40 { o.count("polygons of more than 40 vertices", 1); }
        // any unit of length
        if r.chance(0.3) { let u = r.log(1e-9, 1e9) as f32; for q in &mut pts { *q *= u } }
        // oracle: undecided when another vertex reaches equally far
        let mut ok = true;
        let mut near = false;
        for a in &pts {
            let s = pp(*a).dot(pp(*a));
            for b in &pts {
                if a == b { continue; }
                let t = pp(*a).dot(pp(*b));
                let tol = 1e-6 * pp(*a).len() * (pp(*a).len() + pp(*b).len());
                if (t - s).abs() <= tol { near = true } else if t > s { ok = false }
            }
        }
        o.fpf(&pts.iter().flat_map(|q| [q.x, q.y]).collect::<Vec<_>>());
        if ok && near { o.count("undecided: another vertex reaches equally far", 1); return Ok(()); }
        o.nontrivial();
        let got = Poly2d::new(&pts).strict_check();
        if got != ok { return violation(if ok { "rejected a valid polygon" } else { "accepted an invalid polygon" }, format!("strict_check says {got} for {pts:?}")); }
        o.count(if ok { "valid polygons decided" } else { "invalid polygons decided" }, 1);
        o.class(format!("strict {} {}", pts.len(), ok));
        Ok(())
    });
}
