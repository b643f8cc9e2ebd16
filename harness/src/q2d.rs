//! Monitors for the 2D shape queries. Oracle: brute-force signed distance in f64 (geo.rs).
use crate::fw::*;
use crate::gen::*;
use crate::rng::Rng;
use crate::x2d::{tag, world_case};
use auburn::col2d::*;

/// Relative slack of the iterative queries: the library documents a 1% improvement criterion, which
/// bounds the error of a converged answer by 1/0.99 - 1.
pub const REL: f64 = 0.0104;
/// Rounding slack, relative to the size of the scene. The worst error observed on the unchanged tree
/// over 500 million cases stays below 1/2 (iterative) and 1/4 (closed form) of these.
pub const TOL_IT: f64 = 1.5e-5;
pub const TOL_CF: f64 = 4e-6;

pub fn iterative(a: &S, b: &S, rep: usize) -> bool {
    rep != 0 || !matches!((a.kind(), b.kind()), (0, _) | (_, 0) | (1, 1) | (2, 1))
}

pub fn fingerprint(o: &mut Obs, c: &Case) {
    o.fpf(&c.a.bits());
    o.fpf(&c.b.bits());
    o.fpf(&c.rel.bits());
    o.fp(c.rel.kind as u8);
}

fn rs(r: &R) -> String { format!("answers={r:?}") }

/// Every query mode must decide overlap like the oracle when the gap exceeds the slack.
pub fn check_flags(c: &Case, r: &R, tol: f64, o: &mut Obs) -> Verdict {
    if c.sd.abs() <= tol { o.count("undecided: within rounding of touching", 1); return Ok(()); }
    o.nontrivial();
    o.count(if c.sd < 0. { "decided overlapping" } else { "decided separated" }, 1);
    let want = c.sd < 0.;
    for (name, got) in [("collides", r.collides), ("penetrates", r.pen.is_some()), ("distance_to", r.dist.is_none()), ("sdfv", r.sdfv.0)] {
        if got != want {
            return violation(format!("flag/{name}"), format!("{name} says overlap={got}, oracle says overlap={want}; {} {}", c.desc(), rs(r)));
        }
    }
    Ok(())
}

/// The vectors a query mode returned in the given relation, with their names.
pub fn vectors(c: &Case, r: &R) -> Vec<(&'static str, Vec2)> {
    let mut v = vec![];
    if c.sd < 0. {
        if let Some(q) = r.pen { v.push(("penetrates", q)); }
        if r.sdfv.0 { v.push(("sdfv", r.sdfv.1)); }
    } else {
        if let Some(q) = r.dist { v.push(("distance_to", q)); }
        if !r.sdfv.0 { v.push(("sdfv", r.sdfv.1)); }
    }
    v
}

/// Lengths equal |signed distance| within rel*|sd| + tol.
pub fn check_len(c: &Case, r: &R, rel: f64, tol: f64, o: &mut Obs) -> Verdict {
    if c.sd.abs() <= tol { return Ok(()); }
    for (name, q) in vectors(c, r) {
        let e = (pp(q).len() - c.sd.abs()).abs();
        if !(e <= tol + rel * c.sd.abs()) {
            return violation(format!("length/{name}/{}", c.relation()), format!("{name} returned a vector of length {} but the exact {} is {}; {} {}",
                pp(q).len(), if c.sd < 0. { "penetration depth" } else { "distance" }, c.sd.abs(), c.desc(), rs(r)));
        }
        o.count("vector lengths compared", 1);
        o.max("worst relative length error beyond rounding", ((e - tol).max(0.)) / c.sd.abs());
        o.max("worst length error in units of the rounding slack", if rel == 0. { e / tol } else { 0. });
    }
    if let Some(q) = r.sdf {
        let e = (q as f64 - c.sd).abs();
        if !(e <= tol) {
            return violation("sdf", format!("sdf returned {q}, exact {}; {} {}", c.sd, c.desc(), rs(r)));
        }
        o.count("scalar signed distances compared", 1);
        o.max("worst sdf error in units of the rounding slack", e / tol);
    }
    Ok(())
}

/// Moving `a` by the returned vector leaves the shapes just touching.
pub fn check_touch(c: &Case, r: &R, rel: f64, tol: f64, o: &mut Obs) -> Verdict {
    if c.sd.abs() <= tol { return Ok(()); }
    for (name, q) in vectors(c, r) {
        let e = if q.is_finite() { c.diff.sd(-pp(q)) } else { f64::INFINITY };
        if !(e.abs() <= tol + rel * c.sd.abs()) {
            return violation(format!("touch/{name}/{}", c.relation()), format!("after moving a by the {name} vector {q:?} the signed distance is {e} instead of 0; {} {}", c.desc(), rs(r)));
        }
        o.count("vectors applied and re-measured", 1);
        o.max("worst relative residual beyond rounding", ((e.abs() - tol).max(0.)) / c.sd.abs());
    }
    Ok(())
}

fn tolerances(a: &S, b: &S, rep: usize, c: &Case) -> (f64, f64) {
    if iterative(a, b, rep) { (REL, c.tol(TOL_IT)) } else { (0.0, c.tol(TOL_CF)) }
}

pub fn pair_name(k: (usize, usize, usize)) -> String {
    let n = ["Point", "Ball", "Box2d", "Poly2d"];
    if k.2 == 1 { format!("Shape2d({})-Shape2d({})", n[k.0], n[k.1]) } else { format!("{}-{}", n[k.0], n[k.1]) }
}

pub fn pick_kind(r: &mut Rng) -> K {
    match r.below(8) { 0 => K::Ident, 1 => K::Vec, 2 => K::Translate, 3 => K::Axis, _ => K::Full }
}

/// C07: closed-form pairs give the exact answer in every mode.
pub fn closed_form(ctx: &Ctx) {
    for k in CLOSED {
        ctx.stream(&format!("exact {}", pair_name(k)), ctx.scale(250_000), |r, o, _| {
            let kind = pick_kind(r);
            let c = gen_case(r, k.0, k.1, kind, &DIMS);
            fingerprint(o, &c);
            let res = run_rel(&c.a, &c.b, k.2, &c.rel);
            let tol = c.tol(TOL_CF);
            o.class(c.class(""));
            check_flags(&c, &res, tol, o)?;
            check_len(&c, &res, 0.0, tol, o)?;
            check_touch(&c, &res, 0.0, tol, o)?;
            if r.chance(0.3) { // both placed in the world
                let w = world_case(r, &c, kind);
                let f = r.below(4);
                let y = run_world(&c.a, &w.ta, &c.b, &w.tb, k.2, f);
                let tol = w.case.tol(TOL_CF);
                let d = || format!("form {f}, {}", w.desc());
                check_flags(&w.case, &y, tol, o).map_err(|v| tag(v, "world", &d()))?;
                check_len(&w.case, &y, 0.0, tol, o).map_err(|v| tag(v, "world", &d()))?;
                check_touch(&w.case, &y, 0.0, tol, o).map_err(|v| tag(v, "world", &d()))?;
                o.count("placed pairs", 1);
            }
            o.sample(|| format!("{} -> {:?}", c.desc(), res));
            Ok(())
        });
    }
}

#[derive(Clone, Copy, PartialEq)]
pub enum Aspect { Flags, Distance, Penetration, Touch }

/// C08..C11: iterative pairs against the oracle.
pub fn iterative_pairs(ctx: &Ctx, aspect: Aspect) {
    let pairs: Vec<_> = if aspect == Aspect::Touch || aspect == Aspect::Flags { all_pairs() } else { ITERATIVE.to_vec() };
    for k in pairs {
        ctx.stream(&format!("{} {}", match aspect { Aspect::Flags => "decide", Aspect::Distance => "distance", Aspect::Penetration => "penetration", Aspect::Touch => "resolve" }, pair_name(k)),
            ctx.scale(120_000), |r, o, _| {
            let kind = pick_kind(r);
            let c = gen_case(r, k.0, k.1, kind, &DIMS);
            let (rel, tol) = tolerances(&c.a, &c.b, k.2, &c);
            match aspect {
                Aspect::Distance if c.sd <= tol => { o.count("not separated", 1); return Ok(()); }
                Aspect::Penetration if c.sd >= -tol => { o.count("not overlapping", 1); return Ok(()); }
                _ => {}
            }
            fingerprint(o, &c);
            let res = run_rel(&c.a, &c.b, k.2, &c.rel);
            o.class(c.class(if k.2 == 1 { "Shape2d " } else { "" }));
            match aspect {
                Aspect::Flags => check_flags(&c, &res, tol, o)?,
                Aspect::Distance | Aspect::Penetration => {
                    o.nontrivial();
                    let (n, missing) = if c.sd < 0. { ("penetrates", res.pen.is_none()) } else { ("distance_to", res.dist.is_none()) };
                    if missing { return violation(format!("missing/{n}"), format!("{n} returned None; {} {}", c.desc(), rs(&res))); }
                    check_len(&c, &res, rel, tol, o)?
                }
                Aspect::Touch => {
                    if c.sd.abs() > tol { o.nontrivial(); }
                    check_touch(&c, &res, rel, tol, o)?
                }
            }
            if r.chance(0.3) { // both placed in the world
                let w = world_case(r, &c, kind);
                let (rel, tol) = tolerances(&c.a, &c.b, k.2, &w.case);
                let f = r.below(4);
                let d = || format!("form {f}, {}", w.desc());
                if w.case.sd.abs() > tol {
                    let y = run_world(&c.a, &w.ta, &c.b, &w.tb, k.2, f);
                    match aspect {
                        Aspect::Flags => check_flags(&w.case, &y, tol, o),
                        Aspect::Touch => check_touch(&w.case, &y, rel, tol, o),
                        _ => {
                            let (n, missing) = if w.case.sd < 0. { ("penetrates", y.pen.is_none()) } else { ("distance_to", y.dist.is_none()) };
                            if missing { violation(format!("missing/{n}"), format!("{n} returned None; {y:?}")) } else { check_len(&w.case, &y, rel, tol, o) }
                        }
                    }.map_err(|v| tag(v, "world", &d()))?;
                    o.count("placed pairs", 1);
                }
            }
            o.sample(|| format!("{} -> {:?}", c.desc(), res));
            Ok(())
        });
    }
}
