//! Monitors for the 3D part (C28, C29). Oracle: closed-form geometry in f64.
use crate::fw::*;
use crate::rng::Rng;
use auburn::col3d::{AxisTransform3d, Ball, Box3d, Collides3d, Collides3dV2, Collides3dV3, CollidesRel3d, Composable, DeltaTransform, ExtremePoint3d,
    IdentityTransform, Invertible, Isotropic3d, Penetrates3d, PenetratesRel3d, Point, Quat, SdfRel3d, SdfvRel3d, Transform3d, Transformation3d, Translate3d, Vec3};
use bevy::prelude::Transform;

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Q { pub x: f64, pub y: f64, pub z: f64 }
pub fn q(x: f64, y: f64, z: f64) -> Q { Q { x, y, z } }
impl std::ops::Add for Q { type Output = Q; fn add(self, o: Q) -> Q { q(self.x + o.x, self.y + o.y, self.z + o.z) } }
impl std::ops::Sub for Q { type Output = Q; fn sub(self, o: Q) -> Q { q(self.x - o.x, self.y - o.y, self.z - o.z) } }
impl std::ops::Mul<f64> for Q { type Output = Q; fn mul(self, k: f64) -> Q { q(self.x * k, self.y * k, self.z * k) } }
impl std::ops::Neg for Q { type Output = Q; fn neg(self) -> Q { q(-self.x, -self.y, -self.z) } }
impl Q {
    pub fn dot(self, o: Q) -> f64 { self.x * o.x + self.y * o.y + self.z * o.z }
    pub fn cross(self, o: Q) -> Q { q(self.y * o.z - self.z * o.y, self.z * o.x - self.x * o.z, self.x * o.y - self.y * o.x) }
    pub fn len(self) -> f64 { self.dot(self).sqrt() }
    pub fn mul_each(self, o: Q) -> Q { q(self.x * o.x, self.y * o.y, self.z * o.z) }
    pub fn div_each(self, o: Q) -> Q { q(self.x / o.x, self.y / o.y, self.z / o.z) }
}
pub fn v3(a: Q) -> Vec3 { Vec3::new(a.x as f32, a.y as f32, a.z as f32) }
pub fn qq(a: Vec3) -> Q { q(a.x as f64, a.y as f64, a.z as f64) }
pub fn round(a: Q) -> Q { qq(v3(a)) }

/// unit quaternion in f64
#[derive(Clone, Copy, Debug)]
pub struct Rot { pub v: Q, pub w: f64 }
impl Rot {
    pub const ID: Rot = Rot { v: Q { x: 0., y: 0., z: 0. }, w: 1. };
    /// the rotation the f32 quaternion stands for (its length is 1 up to rounding)
    pub fn of(r: Quat) -> Rot {
        let (v, w) = (q(r.x as f64, r.y as f64, r.z as f64), r.w as f64);
        let n = (v.dot(v) + w * w).sqrt();
        Rot { v: v * (1. / n), w: w / n }
    }
    pub fn apply(&self, p: Q) -> Q { let t = self.v.cross(p) * 2.0; p + t * self.w + self.v.cross(t) }
    pub fn inv(&self) -> Rot { Rot { v: -self.v, w: self.w } }
}
/// Reference placement: scale per axis, rotate, translate.
#[derive(Clone, Copy, Debug)]
pub struct A3 { pub pos: Q, pub rot: Quat, pub sc: Q }
impl A3 {
    pub fn r(&self) -> Rot { Rot::of(self.rot) }
    pub fn apply(&self, p: Q) -> Q { self.r().apply(p.mul_each(self.sc)) + self.pos }
    pub fn unapply(&self, p: Q) -> Q { self.r().inv().apply(p - self.pos).div_each(self.sc) }
    pub fn max_s(&self) -> f64 { self.sc.x.abs().max(self.sc.y.abs()).max(self.sc.z.abs()) }
    pub fn min_s(&self) -> f64 { self.sc.x.abs().min(self.sc.y.abs()).min(self.sc.z.abs()) }
    pub fn bevy(&self) -> Transform { Transform { translation: v3(self.pos), rotation: self.rot, scale: v3(self.sc) } }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum K3 { Ident, Vec, Translate, Axis, Iso, Full, Bevy }
pub const K3S: [K3; 7] = [K3::Ident, K3::Vec, K3::Translate, K3::Axis, K3::Iso, K3::Full, K3::Bevy];
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Sc { Uniform, UniformSigned, PerAxis }

pub fn coord(r: &mut Rng) -> f64 {
    if r.chance(0.03) { return r.sign() * r.log(1e-9, 1e9); }
    match r.below(6) { 0 => 0.0, 1 => r.int(-8, 8) as f64 * 0.5, 2 => r.sign() * r.log(1e-4, 1e-1), 3 => r.sign() * r.log(10., 1e4), _ => r.range(-10., 10.) }
}
pub fn point(r: &mut Rng) -> Q { round(q(coord(r), coord(r), coord(r))) }
fn scale1(r: &mut Rng) -> f64 { if r.chance(0.03) { return r.log(1e-6, 1e6); } match r.below(4) { 0 => 1.0, 1 => r.pick(&[0.5, 2.0, 4.0, 0.25]), 2 => r.log(1e-2, 1e2), _ => r.log(0.3, 3.) } }
pub fn gen_quat(r: &mut Rng) -> Quat {
    match r.below(7) {
        0 => Quat::IDENTITY,
        1 => Quat::from_rotation_x(r.range(-7., 7.) as f32),
        2 => Quat::from_rotation_y(r.range(-7., 7.) as f32),
        3 => Quat::from_rotation_z(r.range(-7., 7.) as f32),
        4 => Quat::from_rotation_z((r.int(-4, 4) as f64 * std::f64::consts::FRAC_PI_2) as f32) * Quat::from_rotation_x((r.int(-4, 4) as f64 * std::f64::consts::FRAC_PI_2) as f32),
        _ => loop {
            let (a, b, c, d) = (r.range(-1., 1.), r.range(-1., 1.), r.range(-1., 1.), r.range(-1., 1.));
            let n = (a * a + b * b + c * c + d * d).sqrt();
            if n > 0.1 && n < 1.0 { return Quat::from_xyzw((a / n) as f32, (b / n) as f32, (c / n) as f32, (d / n) as f32).normalize(); }
        },
    }
}
pub fn gen_a3(r: &mut Rng, k: K3, sc: Sc, rotate: bool) -> A3 {
    let pos = if k == K3::Ident { q(0., 0., 0.) } else { point(r) };
    let rot = if rotate && matches!(k, K3::Iso | K3::Full | K3::Bevy) { gen_quat(r) } else { Quat::IDENTITY };
    let mut s = round(q(scale1(r), scale1(r), scale1(r)));
    if sc != Sc::PerAxis || matches!(k, K3::Axis | K3::Iso) { s = q(s.x, s.x, s.x); }
    if sc == Sc::UniformSigned && r.chance(0.3) { s = -s; }
    if matches!(k, K3::Ident | K3::Vec | K3::Translate) { s = q(1., 1., 1.); }
    A3 { pos, rot, sc: s }
}
macro_rules! with_t3 { ($k:expr, [$($a:expr),*], |$t:ident| $e:expr) => { match $k {
    K3::Ident => panic!("harness-internal"),
    K3::Vec => { let $t = [$(v3($a.pos)),*]; $e }
    K3::Translate => { let $t = [$(Translate3d::from(v3($a.pos))),*]; $e }
    K3::Axis => { let $t = [$(AxisTransform3d::new(v3($a.pos), $a.sc.x as f32)),*]; $e }
    K3::Iso => { let $t = [$(Isotropic3d::from($a.bevy())),*]; $e }
    K3::Full => { let $t = [$(Transform3d::from($a.bevy())),*]; $e }
    K3::Bevy => { let $t = [$($a.bevy()),*]; $e }
} } }
const EPS: f64 = 2.0 * 1.1920929e-7;
pub fn near(what: &str, got: Vec3, want: Q, tol: f64, d: &dyn Fn() -> String, o: &mut Obs) -> Verdict {
    let e = (qq(got) - want).len();
    if !(e <= tol) { return violation(what, format!("{what}: got {got:?}, expected {want:?}, error {e} > {tol}; {}", d())); }
    o.count("points compared", 1);
    o.max("worst error relative to the rounding slack", if tol > 0. { e / tol } else { 0. });
    Ok(())
}
fn fp_a(o: &mut Obs, a: &A3) { for x in [a.pos.x, a.pos.y, a.pos.z, a.sc.x, a.sc.y, a.sc.z] { o.fp(x.to_bits()) } o.fpf(&a.rot.to_array()); }
fn key(a: &A3, k: K3) -> String {
    let l = |x: f64| if x == 0. { "0".to_string() } else { format!("1e{}", x.abs().log10().floor()) };
    format!("{k:?} pos~{} s{}{} {} tilt:{} turn:{}", l(a.pos.len()), if a.sc.x < 0. { "-" } else { "" }, l(a.sc.x), if a.sc.x == a.sc.y { "uniform" } else { "per-axis" },
        a.rot.x != 0. || a.rot.y != 0., a.rot.z != 0.)
}
/// One placement: apply, un-apply, origins, inverse.
fn check_one(k: K3, sc: Sc, r: &mut Rng, o: &mut Obs) -> Verdict {
    let a = gen_a3(r, k, sc, true);
    let p = point(r);
    fp_a(o, &a); o.fpf(&v3(p).to_array());
    o.nontrivial();
    let d = || format!("{k:?} {a:?} point {p:?}");
    let fwd = EPS * 8.0 * (a.pos.len() + a.max_s() * p.len());
    let pre = a.unapply(p);
    let bwd = EPS * 10.0 * (a.pos.len() + p.len()) / a.min_s();
    let back = fwd * 2.0 / a.min_s() + EPS * 10.0 * p.len();
    let again = bwd * a.max_s() + EPS * 10.0 * (a.pos.len() + p.len());
    macro_rules! basic { ($t:expr) => {{ let t = $t;
        near("apply", Transformation3d::apply(t, v3(p)), a.apply(p), fwd, &d, o)?;
        near("unapply", Transformation3d::unapply(t, v3(p)), pre, bwd, &d, o)?;
        near("unapply after apply", Transformation3d::unapply(t, Transformation3d::apply(t, v3(p))), p, back, &d, o)?;
        near("apply after unapply", Transformation3d::apply(t, Transformation3d::unapply(t, v3(p))), p, again, &d, o)?;
        near("apply_origin", Transformation3d::apply_origin(t), a.pos, EPS * a.pos.len(), &d, o)?;
        near("unapply_origin", Transformation3d::unapply_origin(t), a.unapply(q(0., 0., 0.)), EPS * 10.0 * a.pos.len() / a.min_s(), &d, o)?;
    }} }
    if k == K3::Ident { basic!(&IdentityTransform); }
    else { with_t3!(k, [a], |ts| { let [t] = &ts; basic!(t);
        let uniform = a.sc.x == a.sc.y && a.sc.y == a.sc.z;
        if uniform || a.rot == Quat::IDENTITY {
            let i = t.inverse();
            near("inverse of applied", Transformation3d::apply(&i, Transformation3d::apply(t, v3(p))), p, 2.0 * back, &d, o)?;
            near("applied inverse", Transformation3d::apply(t, Transformation3d::apply(&i, v3(p))), p, 2.0 * again, &d, o)?;
            near("inverse is unapply", Transformation3d::apply(&i, v3(p)), pre, 2.0 * bwd, &d, o)?;
            let ratio = a.max_s() / a.min_s();
            near("unapply of inverse", Transformation3d::unapply(&i, v3(p)), a.apply(p), 6.0 * fwd * ratio, &d, o)?;
            near("inverse of inverse", Transformation3d::apply(&i.inverse(), v3(p)), a.apply(p), 6.0 * fwd * ratio, &d, o)?;
            o.count("inverses checked", 1);
        }
    }) }
    o.class(key(&a, k));
    o.sample(d);
    Ok(())
}
/// Several placements: composition and relative transforms. `per_axis` placements are not rotated.
fn check_many(k: K3, per_axis: bool, r: &mut Rng, o: &mut Obs) -> Verdict {
    let sc = if per_axis { Sc::PerAxis } else { Sc::UniformSigned };
    let (a, b, c) = (gen_a3(r, k, sc, !per_axis), gen_a3(r, k, sc, !per_axis), gen_a3(r, k, sc, !per_axis));
    let p = point(r);
    for t in [&a, &b, &c] { fp_a(o, t); }
    o.fpf(&v3(p).to_array());
    o.nontrivial();
    let d = || format!("{k:?} a={a:?} b={b:?} c={c:?} point {p:?}");
    let (la, lb) = (a.pos.len(), b.pos.len());
    let tol2 = EPS * 16.0 * (la + a.max_s() * (lb + b.max_s() * p.len()));
    let tol3 = EPS * 24.0 * (la + a.max_s() * (lb + b.max_s() * (c.pos.len() + c.max_s() * p.len())));
    // relative transform: inverse of a, then b
    let told = EPS * 32.0 * (la + lb + b.max_s() * p.len()) / a.min_s();
    with_t3!(k, [a, b, c], |ts| {
        let [x, y, z] = &ts;
        near("compose", Transformation3d::apply(&x.compose(y), v3(p)), a.apply(b.apply(p)), tol2, &d, o)?;
        near("compose is a after b", Transformation3d::apply(x, Transformation3d::apply(y, v3(p))), a.apply(b.apply(p)), tol2, &d, o)?;
        near("(ab)c", Transformation3d::apply(&x.compose(y).compose(z), v3(p)), a.apply(b.apply(c.apply(p))), tol3, &d, o)?;
        near("a(bc)", Transformation3d::apply(&x.compose(&y.compose(z)), v3(p)), a.apply(b.apply(c.apply(p))), tol3, &d, o)?;
        let rel = x.delta_transform(y);
        near("delta", Transformation3d::apply(&rel, v3(p)), a.unapply(b.apply(p)), told, &d, o)?;
        near("delta origin", Transformation3d::apply_origin(&rel), a.unapply(b.pos), EPS * 32.0 * (la + lb) / a.min_s(), &d, o)?;
        let self_rel = x.delta_transform(x);
        near("delta to itself", Transformation3d::apply(&self_rel, v3(p)), p, EPS * 32.0 * (la / a.min_s() * 2.0 + p.len() * a.max_s() / a.min_s()), &d, o)?;
        near("b = a after delta", Transformation3d::apply(x, Transformation3d::apply(&rel, v3(p))), b.apply(p), told * a.max_s() * 2.0 + EPS * 16.0 * (la + lb + b.max_s() * p.len()), &d, o)?;
    });
    o.count("compositions checked", 4);
    o.class(format!("{} / {}", key(&a, k), key(&b, k)));
    o.sample(d);
    Ok(())
}
pub fn c29(ctx: &Ctx) {
    for k in K3S {
        if k == K3::Bevy { continue; } // C27
        for sc in [Sc::Uniform, Sc::UniformSigned, Sc::PerAxis] {
            if sc == Sc::PerAxis && k != K3::Full || sc == Sc::UniformSigned && matches!(k, K3::Ident | K3::Vec | K3::Translate) { continue; }
            ctx.stream(&format!("placement {k:?} {sc:?}"), ctx.scale(120_000), |r, o, _| check_one(k, sc, r, o));
        }
        if k == K3::Ident { continue; }
        ctx.stream(&format!("composition {k:?}"), ctx.scale(150_000), |r, o, _| check_many(k, false, r, o));
    }
    ctx.stream("composition Full per-axis unrotated", ctx.scale(150_000), |r, o, _| check_many(K3::Full, true, r, o));
    ctx.stream("default placements 3D", ctx.scale(150_000), |r, o, _| check_default(r, o));
}
/// The default of every placement type is the identity.
fn check_default(r: &mut Rng, o: &mut Obs) -> Verdict {
    let k = r.pick(&K3S);
    let a = gen_a3(r, k, Sc::UniformSigned, true);
    let p = point(r);
    fp_a(o, &a); o.fpf(&v3(p).to_array());
    o.nontrivial();
    let d = || format!("{k:?}: default with {a:?}, point {p:?}");
    let tol = EPS * 8.0 * p.len();
    fn plain<T: Transformation3d>(t: &T, p: Q, tol: f64, d: &dyn Fn() -> String, o: &mut Obs) -> Verdict {
        near("default", t.apply(v3(p)), p, tol, d, o)?;
        near("default un-applied", t.unapply(v3(p)), p, tol, d, o)?;
        near("default origin", t.apply_origin(), q(0., 0., 0.), 0., d, o)
    }
    fn same<T: Default>(_: &T) -> T { T::default() }
    if k == K3::Ident { plain(&IdentityTransform, p, tol, &d, o)?; }
    else { with_t3!(k, [a], |ts| {
        let [u] = &ts;
        let t = same(u);
        plain(&t, p, tol, &d, o)?;
        let m = EPS * 16.0 * (a.pos.len() + a.max_s() * p.len());
        near("inverse of default", Transformation3d::apply(&t.inverse(), v3(p)), p, tol, &d, o)?;
        near("default before", Transformation3d::apply(&t.compose(u), v3(p)), a.apply(p), m, &d, o)?;
        near("default after", Transformation3d::apply(&u.compose(&t), v3(p)), a.apply(p), m, &d, o)?;
        near("relative to default", Transformation3d::apply(&t.delta_transform(u), v3(p)), a.apply(p), m, &d, o)?;
        o.count("default placements composed", 2);
    }) }
    o.class(format!("default {}", key(&a, k)));
    Ok(())
}
/// bevy transforms as 3D placements, and conversions
pub fn bevy3d(ctx: &Ctx) {
    for sc in [Sc::Uniform, Sc::UniformSigned, Sc::PerAxis] {
        ctx.stream(&format!("bevy 3D placement {sc:?}"), ctx.scale(120_000), |r, o, _| check_one(K3::Bevy, sc, r, o));
    }
    ctx.stream("bevy 3D composition", ctx.scale(150_000), |r, o, _| check_many(K3::Bevy, false, r, o));
    ctx.stream("bevy 3D composition per-axis unrotated", ctx.scale(150_000), |r, o, _| check_many(K3::Bevy, true, r, o));
    ctx.stream("bevy 3D conversions", ctx.scale(150_000), |r, o, _| {
        let uniform = r.chance(0.5);
        let a = gen_a3(r, K3::Bevy, if uniform { Sc::UniformSigned } else { Sc::PerAxis }, true);
        let p = point(r);
        fp_a(o, &a);
        o.nontrivial();
        let d = || format!("{a:?} point {p:?}");
        let tol = EPS * 8.0 * (a.pos.len() + a.max_s() * p.len());
        let t = a.bevy();
        let f = Transform3d::from(t);
        near("to Transform3d", Transformation3d::apply(&f, v3(p)), a.apply(p), tol, &d, o)?;
        let back = Transform::from(f);
        near("back from Transform3d", Transformation3d::apply(&back, v3(p)), a.apply(p), tol, &d, o)?;
        if (back.translation, back.rotation, back.scale) != (t.translation, t.rotation, t.scale) { return violation("conversion", format!("{t:?} came back as {back:?}")); }
        if uniform {
            let (i, j) = (Isotropic3d::from(t), Isotropic3d::from(&t));
            near("to Isotropic3d", Transformation3d::apply(&i, v3(p)), a.apply(p), tol, &d, o)?;
            near("to Isotropic3d by reference", Transformation3d::apply(&j, v3(p)), a.apply(p), tol, &d, o)?;
        }
        // as bevy itself places points
        near("bevy's own placement", t.transform_point(v3(p)), a.apply(p), tol, &d, o)?;
        o.count("conversions checked", 3);
        o.class(key(&a, K3::Bevy));
        Ok(())
    });
}

// ------------------------------------------------------------------------------------------ C28

#[derive(Clone, Copy, Debug)]
pub enum S3 { Ball(f32), Bx(f32, f32, f32) }
impl S3 {
    /// exact signed distance of a point to the shape at the origin
    pub fn sd(&self, p: Q) -> f64 {
        match self {
            S3::Ball(r) => p.len() - *r as f64,
            S3::Bx(x, y, z) => {
                let e = q(p.x.abs() - *x as f64, p.y.abs() - *y as f64, p.z.abs() - *z as f64);
                let out = q(e.x.max(0.), e.y.max(0.), e.z.max(0.)).len();
                if out > 0. { out } else { e.x.max(e.y).max(e.z) }
            }
        }
    }
    fn ext(&self) -> f64 { match self { S3::Ball(r) => *r as f64, S3::Bx(x, y, z) => q(*x as f64, *y as f64, *z as f64).len() } }
}
fn size(r: &mut Rng) -> f32 {
    if r.chance(0.03) { return r.log(1e-9, 1e9) as f32; }
    match r.below(6) { 0 => r.int(1, 6) as f32 * 0.5, 1 => r.log(1e-3, 1e-1) as f32, 2 => r.log(10., 1e3) as f32, _ => r.log(0.2, 5.) as f32 }
}
fn gen_s3(r: &mut Rng, ball: bool) -> S3 { if ball { S3::Ball(size(r)) } else if r.chance(0.2) { let s = size(r); S3::Bx(s, s, s) } else { S3::Bx(size(r), size(r), size(r)) } }
/// a point around the shape: in every region of space around a box, near its surface, deep, far
fn around(r: &mut Rng, s: &S3) -> Q {
    let h = match s { S3::Ball(x) => q(*x as f64, *x as f64, *x as f64), S3::Bx(x, y, z) => q(*x as f64, *y as f64, *z as f64) };
    let one = |r: &mut Rng, h: f64| match r.below(8) {
        0 => 0.0, 1 => h * r.range(-1., 1.), 2 => r.sign() * h * (1.0 + r.sign() * r.log(1e-4, 0.5)), 3 => r.sign() * h, 4 => r.sign() * h * r.log(1.0, 20.), 5 => r.sign() * r.log(1e-6, 1e-2) * h, _ => h * r.range(-2., 2.) };
    match s {
        S3::Ball(x) if r.chance(0.6) => {
            let d = loop { let d = q(r.range(-1., 1.), r.range(-1., 1.), r.range(-1., 1.)); if d.len() > 0.1 { break d * (1.0 / d.len()) } };
            let x = *x as f64;
            round(d * match r.below(4) { 0 => x * r.range(0., 1.), 1 => x * (1.0 + r.sign() * r.log(1e-4, 0.5)), 2 => x * r.log(1., 50.), _ => x * r.log(1e-6, 1.) })
        }
        _ => round(q(one(r, h.x), one(r, h.y), one(r, h.z))),
    }
}
struct R3 { collides: bool, pen: Option<Vec3>, sdf: f32, sdfv: Vec3 }
fn rel_all<A, B, T: Transformation3d>(a: &A, b: &B, t: &T) -> R3
where A: CollidesRel3d<B> + PenetratesRel3d<B> + SdfRel3d<B> + SdfvRel3d<B> {
    R3 { collides: a.collides_rel(b, t), pen: a.penetrates_rel(b, t), sdf: a.sdf_rel(b, t), sdfv: a.sdfv_rel(b, t) }
}
fn world_all<A, B, T: Transformation3d + DeltaTransform + Invertible + Composable>(a: &A, ta: &T, b: &B, tb: &T) -> ([(&'static str, bool); 3], Option<Vec3>)
where A: CollidesRel3d<B> + PenetratesRel3d<B> {
    ([("collides", Collides3d::collides(a, ta, b, tb)), ("collides_v2", (a, ta).collides_v2(b, tb)), ("collides_v3", (a, ta).collides_v3((b, tb)))], Penetrates3d::penetrates(a, ta, b, tb))
}
/// `sd` exact signed distance, `residual(v)` the signed distance after moving the first shape by v
fn check3(x: &R3, sd: f64, residual: &dyn Fn(Q) -> f64, tol: f64, d: &dyn Fn() -> String, o: &mut Obs) -> Verdict {
    let all = || format!("exact {sd}; collides={} penetrates={:?} sdf={} sdfv={:?}; {}", x.collides, x.pen, x.sdf, x.sdfv, d());
    if !x.sdf.is_finite() || !x.sdfv.is_finite() || x.pen.is_some_and(|p| !p.is_finite()) { return violation("not-finite", all()); }
    if !((x.sdf as f64 - sd).abs() <= tol) { return violation("sdf", all()); }
    o.count("scalar signed distances compared", 1);
    o.max("worst error relative to the rounding slack", (x.sdf as f64 - sd).abs() / tol);
    if sd.abs() > tol {
        o.nontrivial();
        if x.collides != (sd < 0.) { return violation("collides", all()); }
        if x.pen.is_some() != (sd < 0.) { return violation("penetrates", all()); }
        o.count(if sd < 0. { "decided inside" } else { "decided outside" }, 1);
    } else { o.count("undecided: within rounding of touching", 1); }
    let mut vs = vec![("sdfv", x.sdfv)];
    if let Some(p) = x.pen { vs.push(("penetrates", p)); }
    for (n, v) in vs {
        let l = qq(v).len();
        if !((l - sd.abs()).abs() <= 2.0 * tol) { return violation(format!("length/{n}"), all()); }
        let e = residual(qq(v));
        if !(e.abs() <= 2.0 * tol) { return violation(format!("touch/{n}"), format!("after moving the first shape by {v:?} the signed distance is {e}; {}", all())); }
        o.count("vectors applied and re-measured", 1);
        o.max("worst residual relative to the rounding slack", e.abs() / (2.0 * tol));
    }
    Ok(())
}
/// radial growth factor: tolerance grows with the coordinates involved
const TOL3: f64 = 4e-6;
fn region(s: &S3, p: Q) -> String {
    match s { S3::Ball(r) => format!("ball {}", (p.len() / *r as f64).log2().floor().clamp(-5., 5.)), S3::Bx(x, y, z) => {
        let f = |a: f64, h: f32| if a.abs() <= h as f64 { "in" } else if a > 0. { "+" } else { "-" };
        format!("box {}{}{} max {}", f(p.x, *x), f(p.y, *y), f(p.z, *z), { let e = [p.x.abs() - *x as f64, p.y.abs() - *y as f64, p.z.abs() - *z as f64]; (0..3).max_by(|a, b| e[*a].partial_cmp(&e[*b]).unwrap()).unwrap() })
    } }
}
pub fn c28(ctx: &Ctx) {
    for ball in [true, false] {
        let name = if ball { "Ball" } else { "Box3d" };
        // shape first: only the position of the point matters
        ctx.stream(&format!("{name}-Point"), ctx.scale(300_000), |r, o, _| {
            let s = gen_s3(r, ball);
            let k = r.pick(&K3S);
            let mut t = gen_a3(r, k, Sc::Uniform, true);
            if k != K3::Ident { t.pos = around(r, &s); }
            fp_a(o, &t); o.fp(format!("{s:?}"));
            let sd = s.sd(t.pos);
            let tol = TOL3 * (s.ext() + t.pos.len());
            let d = || format!("{s:?} against a point placed by {k:?} {t:?}");
            macro_rules! go { ($s:expr) => { if k == K3::Ident { rel_all($s, &Point, &IdentityTransform) } else { with_t3!(k, [t], |ts| rel_all($s, &Point, &ts[0])) } } }
            let x = match s { S3::Ball(x) => go!(&Ball::with_radius(x)), S3::Bx(x, y, z) => go!(&Box3d::with_halfdims(x, y, z)) };
            check3(&x, sd, &|v| s.sd(t.pos - v), tol, &d, o)?;
            o.class(format!("{k:?} {}", region(&s, t.pos)));
            o.sample(d);
            Ok(())
        });
        // point first: the shape is placed, rotated and scaled
        ctx.stream(&format!("Point-{name}"), ctx.scale(300_000), |r, o, _| {
            let s = gen_s3(r, ball);
            let k = r.pick(&K3S);
            let mut t = gen_a3(r, k, Sc::Uniform, true);
            let l = around(r, &s); // where the point shall be in the frame of the shape
            if k != K3::Ident { t.pos = round(-(t.r().apply(l.mul_each(t.sc)))); }
            fp_a(o, &t); o.fp(format!("{s:?}"));
            let k_ = t.sc.x;
            let at = |p: Q| k_ * s.sd(t.unapply(p));
            let sd = at(q(0., 0., 0.));
            let tol = TOL3 * (k_ * s.ext() + t.pos.len());
            let d = || format!("a point against {s:?} placed by {k:?} {t:?}");
            macro_rules! go { ($s:expr) => { if k == K3::Ident { rel_all(&Point, $s, &IdentityTransform) } else { with_t3!(k, [t], |ts| rel_all(&Point, $s, &ts[0])) } } }
            let x = match s { S3::Ball(x) => go!(&Ball::with_radius(x)), S3::Bx(x, y, z) => go!(&Box3d::with_halfdims(x, y, z)) };
            check3(&x, sd, &|v| at(v), tol, &d, o)?;
            o.class(format!("{k:?} {}", region(&s, l)));
            o.sample(d);
            Ok(())
        });
        // world space, both orders
        ctx.stream(&format!("world {name}"), ctx.scale(200_000), |r, o, _| {
            let s = gen_s3(r, ball);
            let k = r.pick(&K3S[1..]);
            let (mut ts, mut tp) = (gen_a3(r, k, Sc::Uniform, true), gen_a3(r, k, Sc::Uniform, true));
            ts.pos = round(ts.pos * r.log(1e-3, 1.));
            let l = around(r, &s);
            tp.pos = round(ts.apply(l));
            fp_a(o, &ts); fp_a(o, &tp); o.fp(format!("{s:?}"));
            let at = |p: Q| ts.sc.x * s.sd(ts.unapply(p));
            let sd = at(tp.pos);
            let big = (ts.sc.x * s.ext() + ts.pos.len() + tp.pos.len()).max(1e-30);
            let tol = 4.0 * TOL3 * big;
            let d = || format!("{s:?} at {k:?} {ts:?}, point at {tp:?}, exact {sd}");
            let point_first = r.chance(0.5);
            macro_rules! go { ($s:expr) => { with_t3!(k, [ts, tp], |t| if point_first { world_all(&Point, &t[1], $s, &t[0]) } else { world_all($s, &t[0], &Point, &t[1]) }) } }
            let (flags, pen) = match s { S3::Ball(x) => go!(&Ball::with_radius(x)), S3::Bx(x, y, z) => go!(&Box3d::with_halfdims(x, y, z)) };
            if let Some(p) = pen { if !p.is_finite() { return violation("not-finite", d()); } }
            if sd.abs() <= tol { o.count("undecided: within rounding of touching", 1); return Ok(()); }
            o.nontrivial();
            for (n, f) in flags {
                if f != (sd < 0.) { return violation(format!("world/{n}"), format!("{n}={f}, point first={point_first}; {}", d())); }
                o.count("world overlap decisions", 1);
            }
            if pen.is_some() != (sd < 0.) { return violation("world/penetrates", format!("penetrates={pen:?}, point first={point_first}; {}", d())); }
            if let Some(p) = pen {
                let l = qq(p).len();
                if !((l - sd.abs()).abs() <= 2.0 * tol) { return violation("world/length", format!("penetrates={p:?}, point first={point_first}; {}", d())); }
                // moving the shape by p is moving the point by -p
                let e = at(if point_first { tp.pos + qq(p) } else { tp.pos - qq(p) });
                if !(e.abs() <= 2.0 * tol) { return violation("world/touch", format!("after moving by {p:?} the signed distance is {e}, point first={point_first}; {}", d())); }
                o.count("world vectors applied and re-measured", 1);
            }
            o.class(format!("world {k:?} {point_first} {}", region(&s, l)));
            o.sample(d);
            Ok(())
        });
    }
    ctx.stream("extreme points 3D", ctx.scale(300_000), |r, o, _| {
        let s = { let b = r.chance(0.5); gen_s3(r, b) };
        let d = loop { let c = |r: &mut Rng| r.pick(&[0.0, -0.0, 1.0, -1.0, 1e-4, -1e-4, 0.3, -0.7]); let d = q(c(r), c(r), c(r)) + if r.chance(0.6) { q(r.range(-1., 1.), r.range(-1., 1.), r.range(-1., 1.)) } else { q(0., 0., 0.) }; if d.len() > 1e-6 { break round(d * r.log(1e-3, 1e3)) } };
        o.fpf(&v3(d).to_array()); o.fp(format!("{s:?}"));
        o.nontrivial();
        let (x, h) = match s {
            S3::Ball(x) => (Ball::with_radius(x).extreme_point(v3(d)), x as f64 * d.len()),
            S3::Bx(x, y, z) => (Box3d::with_halfdims(x, y, z).extreme_point(v3(d)), x as f64 * d.x.abs() + y as f64 * d.y.abs() + z as f64 * d.z.abs()),
        };
        let tol = 1e-6 * s.ext();
        if !(s.sd(qq(x)) <= tol) { return violation("support-outside", format!("{s:?} direction {d:?} -> {x:?}")); }
        if !((qq(x).dot(d) - h).abs() <= 2.0 * tol * d.len()) { return violation("support-not-farthest", format!("{s:?} direction {d:?} -> {x:?} reaches {}, farthest {h}", qq(x).dot(d))); }
        if Point.extreme_point(v3(d)) != Vec3::ZERO { return violation("support-point", format!("direction {d:?}")); }
        o.count("extreme points checked", 2);
        o.class(format!("{} {}{}{}", matches!(s, S3::Ball(_)), d.x.partial_cmp(&0.).unwrap() as i8, d.y.partial_cmp(&0.).unwrap() as i8, d.z.partial_cmp(&0.).unwrap() as i8));
        Ok(())
    });
    ctx.stream("cover 3D", ctx.scale(200_000), |r, o, _| {
        let mut b = Box3d::new(Vec3::new(size(r), size(r), if r.chance(0.2) { 0.0 } else { size(r) }));
        let mut want = b.halfsize;
        let mut log = vec![b.halfsize];
        for _ in 0..1 + r.below(5) {
            let p = v3(point(r)) * r.pick(&[1.0, 0.1, 0.01]);
            log.push(p);
            b.cover(&p);
            want = Vec3::new(want.x.max(p.x.abs()), want.y.max(p.y.abs()), want.z.max(p.z.abs()));
            o.fpf(&p.to_array());
            if b.halfsize != want { return violation("cover", format!("box and points {log:?} gave {:?}, expected {want:?}", b.halfsize)); }
            o.count("points covered", 1);
        }
        o.nontrivial();
        o.class(format!("cover {}", log.len()));
        Ok(())
    });
}
/// 3D queries for C18
pub fn silent_scene(r: &mut Rng, d: &mut crate::silent::D) {
    fn put(d: &mut crate::silent::D, x: &R3) { d.b(x.collides); d.b(x.pen.is_some()); for v in [x.pen.unwrap_or(Vec3::ZERO), x.sdfv] { d.f(v.x); d.f(v.y); d.f(v.z); } d.f(x.sdf); }
    let ball = r.chance(0.5);
    let s = gen_s3(r, ball);
    let k = r.pick(&K3S[1..]);
    let (mut t, u) = (gen_a3(r, k, Sc::Uniform, true), gen_a3(r, k, Sc::Uniform, true));
    t.pos = around(r, &s);
    let dir = v3(point(r));
    macro_rules! go { ($s:expr) => {{ with_t3!(k, [t, u], |ts| {
        put(d, &rel_all($s, &Point, &ts[0]));
        put(d, &rel_all(&Point, $s, &ts[0]));
        let (f, p) = world_all($s, &ts[1], &Point, &ts[0]);
        for (_, b) in f { d.b(b) }
        d.b(p.is_some());
        let p = p.unwrap_or(Vec3::ZERO) + Transformation3d::apply(&ts[0].compose(&ts[1]).inverse(), dir);
        d.f(p.x); d.f(p.y); d.f(p.z);
    }); let e = $s.extreme_point(dir); d.f(e.x); d.f(e.y); d.f(e.z); }} }
    match s { S3::Ball(x) => { go!(&Ball::with_radius(x)) } S3::Bx(x, y, z) => { go!(&Box3d::with_halfdims(x, y, z)) } }
}
