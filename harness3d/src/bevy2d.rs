//! C27: bevy transforms as 2D placements.
use crate::d3::{gen_quat, K3S};
use crate::fw::*;
use crate::gen::*;
use crate::geo::*;
use crate::q2d::*;
use crate::rng::Rng;
use crate::with_pair;
use crate::x2d::*;
use auburn::col2d::*;
use auburn::{Quat, Vec3};
use bevy::prelude::Transform;

const EPS: f64 = 2.0 * 1.1920929e-7;

/// z of the position and of the scale must not matter
#[derive(Clone, Copy, Debug)]
struct Junk { z: f32, sz: f32 }
fn junk(r: &mut Rng) -> Junk { Junk { z: if r.chance(0.3) { 0.0 } else { r.range(-50., 50.) as f32 }, sz: if r.chance(0.3) { 1.0 } else { r.log(0.1, 10.) as f32 } } }
fn bevy(t: &T, j: Junk) -> Transform { Transform { translation: Vec3::new(t.pos.x, t.pos.y, j.z), rotation: Quat::from_rotation_z(t.ang), scale: Vec3::new(t.sc, t.sc, j.sz) } }

fn close(what: &str, got: Vec2, want: P, tol: f64, d: &dyn Fn() -> String, o: &mut Obs) -> Verdict {
    let e = (pp(got) - want).len();
    if !(e <= tol) { return violation(what, format!("{what}: got {got:?}, expected ({}, {}), error {e} > {tol}; {}", want.x, want.y, d())); }
    o.count("points compared", 1);
    o.max("worst error relative to the rounding slack", if tol > 0. { e / tol } else { 0. });
    Ok(())
}

pub fn c27(ctx: &Ctx) {
    let _ = K3S;
    ctx.stream("bevy 2D placement", ctx.scale(400_000), |r, o, _| {
        let c = |r: &mut Rng| match r.below(5) { 0 => 0.0, 1 => r.int(-8, 8) as f64 * 0.5, 2 => r.sign() * r.log(10., 1e4), _ => r.range(-10., 10.) };
        let tilted = r.chance(0.3);
        let rot = if tilted { gen_quat(r) } else { Quat::from_rotation_z(gen_angle(r)) };
        let s1 = r.log(0.05, 20.) as f32;
        let sc = Vec3::new(s1, if r.chance(0.5) { s1 } else { r.log(0.05, 20.) as f32 }, r.log(0.05, 20.) as f32);
        let t = Transform { translation: Vec3::new(c(r) as f32, c(r) as f32, c(r) as f32), rotation: rot, scale: sc };
        let q = v(p(c(r), c(r)));
        o.fpf(&t.translation.to_array()); o.fpf(&rot.to_array()); o.fpf(&sc.to_array()); o.fpf(&[q.x, q.y]);
        let (w, z) = (rot.w as f64, rot.z as f64);
        let n = w.hypot(z);
        if n < 1e-3 { o.count("undecided: no turn about Z is defined", 1); return Ok(()); }
        o.nontrivial();
        let (cs, sn) = ((w * w - z * z) / (n * n), 2.0 * w * z / (n * n));
        let pos = p(t.translation.x as f64, t.translation.y as f64);
        let (sx, sy) = (sc.x as f64, sc.y as f64);
        let turn = |a: P| p(cs * a.x - sn * a.y, sn * a.x + cs * a.y);
        let unturn = |a: P| p(cs * a.x + sn * a.y, -sn * a.x + cs * a.y);
        let q64 = pp(q);
        let k = 8.0 / n;
        let fwd = EPS * k * (pos.len() + sx.max(sy) * q64.len());
        let bwd = EPS * k * (pos.len() + q64.len()) / sx.min(sy);
        let d = || format!("{t:?} point {q:?}");
        let eq = Transform2d::from(t);
        for (n, x) in [("bevy", &t as &dyn Placement), ("converted", &eq)] {
            let tag_ = |s: &str| format!("{n}/{s}");
            close(&tag_("apply"), x.apply_(q), turn(p(q64.x * sx, q64.y * sy)) + pos, fwd, &d, o)?;
            let u = unturn(q64 - pos);
            close(&tag_("unapply"), x.unapply_(q), p(u.x / sx, u.y / sy), bwd, &d, o)?;
            close(&tag_("apply_origin"), x.origin_(), pos, EPS * pos.len(), &d, o)?;
            close(&tag_("apply_normal"), x.normal_(q), turn(q64), EPS * k * q64.len(), &d, o)?;
            close(&tag_("unapply_normal"), x.unnormal_(q), unturn(q64), EPS * k * q64.len(), &d, o)?;
            if sx == sy && !((x.factor_() as f64 - sx).abs() <= EPS * sx) { return violation(tag_("scaling_factor"), format!("{}; {}", x.factor_(), d())); }
        }
        o.class(format!("tilted {tilted} uniform {} turn {}", sx == sy, (sn.atan2(cs) / 0.3) as i32));
        o.sample(d);
        Ok(())
    });
    for k in all_pairs() {
        ctx.stream(&format!("bevy rel {}", pair_name(k)), ctx.scale(25_000), |r, o, _| {
            let c = gen_case(r, k.0, k.1, K::Full, &DIMS);
            let (rel, tol) = if iterative(&c.a, &c.b, k.2) { (REL, c.tol(TOL_IT)) } else { (0.0, c.tol(TOL_CF)) };
            fingerprint(o, &c);
            let t = bevy(&c.rel, junk(r));
            let t = &t;
            let x = with_pair!(c.a, c.b, k.2, |x, y| rel_all(x, y, t), |r| x.sdf_rel(y, t));
            check_flags(&c, &x, tol, o)?;
            check_len(&c, &x, rel, tol, o)?;
            check_touch(&c, &x, rel, tol, o)?;
            if c.sd.abs() > tol {
                let y = run_rel(&c.a, &c.b, k.2, &c.rel);
                same(&x, &y, rel, tol, c.sd, 1.0, o).map_err(|v| tag(v, "against Transform2d", &c.desc()))?;
            }
            o.class(c.class(if k.2 == 1 { "Shape2d " } else { "" }));
            o.sample(|| format!("{} -> {x:?}", c.desc()));
            Ok(())
        });
        ctx.stream(&format!("bevy world {}", pair_name(k)), ctx.scale(25_000), |r, o, _| {
            let c = gen_case(r, k.0, k.1, K::Full, &DIMS);
            let w = world_case(r, &c, K::Full);
            fingerprint(o, &w.case);
            o.fpf(&w.ta.bits());
            let (rel, tol) = if iterative(&c.a, &c.b, k.2) { (REL, w.case.tol(TOL_IT)) } else { (0.0, 2.0 * w.case.tol(TOL_CF)) };
            if w.case.sd.abs() <= tol { o.count("undecided: within rounding of touching", 1); return Ok(()); }
            let (ja, jb) = (junk(r), junk(r));
            let f = r.below(4);
            let (ta, tb) = (bevy(&w.ta, ja), bevy(&w.tb, jb));
            let (ta, tb) = (&ta, &tb);
            let x = with_pair!(c.a, c.b, k.2, |x, y| world_all(x, ta, y, tb, f), |r| sdf_world(x, ta, y, tb, f));
            let d = || w.desc();
            check_flags(&w.case, &x, tol, o).map_err(|v| tag(v, "world", &d()))?;
            check_len(&w.case, &x, rel, tol, o).map_err(|v| tag(v, "world", &d()))?;
            check_touch(&w.case, &x, rel, tol, o).map_err(|v| tag(v, "world", &d()))?;
            let y = run_world(&c.a, &w.ta, &c.b, &w.tb, k.2, f);
            same(&x, &y, rel, tol, w.case.sd, 1.0, o).map_err(|v| tag(v, "against Transform2d", &d()))?;
            o.class(w.case.class("world "));
            Ok(())
        });
    }
    crate::d3::bevy3d(ctx);
}

trait Placement {
    fn apply_(&self, q: Vec2) -> Vec2;
    fn unapply_(&self, q: Vec2) -> Vec2;
    fn origin_(&self) -> Vec2;
    fn normal_(&self, q: Vec2) -> Vec2;
    fn unnormal_(&self, q: Vec2) -> Vec2;
    fn factor_(&self) -> f32;
}
impl<X: Transformation2d> Placement for X {
    fn apply_(&self, q: Vec2) -> Vec2 { Transformation2d::apply(self, q) }
    fn unapply_(&self, q: Vec2) -> Vec2 { Transformation2d::unapply(self, q) }
    fn origin_(&self) -> Vec2 { Transformation2d::apply_origin(self) }
    fn normal_(&self, q: Vec2) -> Vec2 { Transformation2d::apply_normal(self, q) }
    fn unnormal_(&self, q: Vec2) -> Vec2 { Transformation2d::unapply_normal(self, q) }
    fn factor_(&self) -> f32 { Transformation2d::scaling_factor(self) }
}

/// 2D queries with bevy transforms, and 3D queries, for C18
pub fn silent_scene(r: &mut Rng, d: &mut crate::silent::D) {
    if r.chance(0.5) { return crate::d3::silent_scene(r, d); }
    let pairs = all_pairs();
    let k = pairs[r.below(pairs.len())];
    let c = gen_case(r, k.0, k.1, K::Full, &DIMS);
    let (ja, jb, f) = (junk(r), junk(r), r.below(4));
    let ta = T { kind: K::Full, pos: v(p(r.range(-9., 9.), r.range(-9., 9.))), ang: gen_angle(r), sc: r.log(0.3, 3.) as f32 };
    let (ta, tb) = (bevy(&ta, ja), bevy(&c.rel, jb));
    let (ta, tb) = (&ta, &tb);
    for x in [with_pair!(c.a, c.b, k.2, |x, y| rel_all(x, y, tb), |r| x.sdf_rel(y, tb)), with_pair!(c.a, c.b, k.2, |x, y| world_all(x, ta, y, tb, f), |r| sdf_world(x, ta, y, tb, f))] {
        d.b(x.collides); d.ov(x.pen); d.ov(x.dist); d.b(x.sdfv.0); d.v(x.sdfv.1);
        if let Some(s) = x.sdf { d.f(s) }
    }
}
