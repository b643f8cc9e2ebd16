//! C36: shapes, placements, colliders and events are plain values.
use crate::fw::*;
use crate::rng::Rng;
use auburn::col2d::*;
use auburn::col3d::{self, Box3d, Isotropic3d, Quat, Transform3d, Transformation3d, Translate3d, AxisTransform3d, Vec3};
use auburn::utils::publisher::Ledger;
use auburn::utils::rect2::Rect2i32;
use bevy::prelude::Transform;
use lk_math::vector::V2i32;
use std::fmt::Debug;

/// any number at all, everyday ones more often
fn num(r: &mut Rng) -> f32 {
    match r.below(8) {
        0 => f32::from_bits(r.u64() as u32),
        1 => r.pick(&[0.0, -0.0, 1.0, -1.0, f32::INFINITY, f32::NEG_INFINITY, f32::NAN, f32::MAX, f32::MIN_POSITIVE, f32::EPSILON, 1e-45, 16777217.0, 0.1]),
        2 => (r.sign() * r.log(1e-38, 1e38)) as f32,
        3 => r.int(-20, 20) as f32,
        _ => r.range(-100., 100.) as f32,
    }
}
fn vec(r: &mut Rng) -> Vec2 { Vec2::new(num(r), num(r)) }
fn vec3(r: &mut Rng) -> Vec3 { Vec3::new(num(r), num(r), num(r)) }
fn b2(v: Vec2) -> Vec<u32> { vec![v.x.to_bits(), v.y.to_bits()] }
fn b3(v: Vec3) -> Vec<u32> { vec![v.x.to_bits(), v.y.to_bits(), v.z.to_bits()] }
fn b4(q: Quat) -> Vec<u32> { vec![q.x.to_bits(), q.y.to_bits(), q.z.to_bits(), q.w.to_bits()] }
fn show(b: &[u32]) -> Vec<f32> { b.iter().map(|x| f32::from_bits(*x)).collect() }
/// one number changed
fn other(r: &mut Rng, x: f32) -> f32 { match r.below(3) { 0 => if x == 0.0 { -x } else { -x }, 1 => f32::from_bits(x.to_bits() ^ 1), _ => num(r) } }

fn kept(o: &mut Obs, what: &str, got: Vec<u32>, want: Vec<u32>) -> Verdict {
    o.count("values compared bit for bit", 1);
    if got == want { return Ok(()); }
    violation(format!("kept/{what}"), format!("{what}: holds {:?} ({got:x?}), given {:?} ({want:x?})", show(&got), show(&want)))
}
/// equality is that of all fields
fn equal<X: PartialEq + Debug>(o: &mut Obs, what: &str, a: &X, b: &X, want: bool) -> Verdict {
    o.count(if want { "equal values compared" } else { "different values compared" }, 1);
    if (a == b) != want || (b == a) != want || (a != b) == want { return violation(format!("equal/{what}"), format!("{what}: {a:?} == {b:?} is {}, expected {want}", a == b)); }
    Ok(())
}
/// the debug text shows every field
fn shown<X: Debug>(o: &mut Obs, what: &str, x: &X, fields: &[f32]) -> Verdict {
    for text in [format!("{x:?}"), format!("{x:#?}")] {
        // in their order
        let mut rest = text.as_str();
        for f in fields {
            let f = format!("{f:?}");
            match rest.find(&f) { Some(i) => rest = &rest[i + f.len()..], None => return violation(format!("shown/{what}"), format!("{what}: {f} is missing from {text}")) }
        }
        o.count("debug texts read", 1);
    }
    Ok(())
}
/// the four placements of 2D probe points tell two placements apart
fn probe<X: Transformation2d>(t: &X) -> Vec<u32> {
    let mut out = b2(t.apply_origin());
    for q in [Vec2::new(1.0, 0.0), Vec2::new(0.0, 1.0), Vec2::new(-3.0, 5.0)] { out.extend(b2(t.apply(q))); out.extend(b2(t.unapply(q))); out.extend(b2(t.apply_normal(q))); out.extend(b2(t.unapply_normal(q))); }
    out.push(t.scaling_factor().to_bits());
    // an undefined number is an undefined number
    out.into_iter().map(|b| if f32::from_bits(b).is_nan() { 0x7fc00000 } else { b }).collect()
}
fn probe3<X: Transformation3d>(t: &X) -> Vec<u32> {
    let mut out = b3(t.apply_origin());
    for q in [Vec3::X, Vec3::Y, Vec3::new(-3.0, 5.0, 0.5)] { out.extend(b3(t.apply(q))); out.extend(b3(t.unapply(q))); }
    out.into_iter().map(|b| if f32::from_bits(b).is_nan() { 0x7fc00000 } else { b }).collect()
}
fn eq_f(a: &[u32], b: &[u32]) -> bool { show(a) == show(b) }

pub fn c36(ctx: &Ctx) {
    ctx.stream("shapes", ctx.scale(60_000), |r, o, _| {
        let (x, y, z) = (num(r), num(r), num(r));
        o.fpf(&[x, y, z]);
        o.nontrivial();
        // ball
        let b = Ball::new(x);
        kept(o, "Ball::new", vec![b.radius.to_bits()], vec![x.to_bits()])?;
        kept(o, "Ball::with_radius", vec![Ball::with_radius(x).radius.to_bits()], vec![x.to_bits()])?;
        let c = b;
        kept(o, "copy of a Ball", vec![c.clone().radius.to_bits()], vec![x.to_bits()])?;
        equal(o, "Ball", &b, &c, x == x)?;
        let w = other(r, x);
        equal(o, "Ball", &b, &Ball::new(w), x == w)?;
        shown(o, "Ball", &b, &[x])?;
        // boxes
        let b = Box2d::new(Vec2::new(x, y));
        kept(o, "Box2d::new", b2(b.halfsize), b2(Vec2::new(x, y)))?;
        kept(o, "Box2d::with_halfdims", b2(Box2d::with_halfdims(x, y).halfsize), b2(Vec2::new(x, y)))?;
        let mut c = b;
        equal(o, "Box2d", &b, &c, x == x && y == y)?;
        let (mut p, i) = ([x, y], r.below(2));
        p[i] = other(r, p[i]);
        equal(o, "Box2d", &b, &Box2d::with_halfdims(p[0], p[1]), x == p[0] && y == p[1])?;
        shown(o, "Box2d", &b, &[x, y])?;
        c.cover(&Vec2::new(1e38, 1e38));
        kept(o, "Box2d after its copy grew", b2(b.halfsize), b2(Vec2::new(x, y)))?;
        let b = Box3d::new(Vec3::new(x, y, z));
        kept(o, "Box3d::new", b3(b.halfsize), b3(Vec3::new(x, y, z)))?;
        kept(o, "Box3d::with_halfdims", b3(Box3d::with_halfdims(x, y, z).halfsize), b3(Vec3::new(x, y, z)))?;
        equal(o, "Box3d", &b, &b.clone(), x == x && y == y && z == z)?;
        let (mut p, i) = ([x, y, z], r.below(3));
        p[i] = other(r, p[i]);
        equal(o, "Box3d", &b, &Box3d::with_halfdims(p[0], p[1], p[2]), x == p[0] && y == p[1] && z == p[2])?;
        shown(o, "Box3d", &b, &[x, y, z])?;
        // union
        let bits = |s: &Shape2d| match s { Shape2d::Ball(b) => vec![1, b.radius.to_bits()], Shape2d::Box2d(b) => vec![2, b.halfsize.x.to_bits(), b.halfsize.y.to_bits()],
            Shape2d::Poly2d(q) => { let mut v = vec![3]; for a in &q.points { v.extend(b2(*a)) } v } };
        kept(o, "Shape2d::ball", bits(&Shape2d::ball(x)), vec![1, x.to_bits()])?;
        kept(o, "Shape2d::rect", bits(&Shape2d::rect(x, y)), vec![2, x.to_bits(), y.to_bits()])?;
        shown(o, "Shape2d", &Shape2d::rect(x, y), &[x, y])?;
        shown(o, "Shape2d", &Shape2d::ball(x), &[x])?;
        // polygons
        let n = if r.chance(0.02) { r.below(2000) } else { r.below(12) };
        let q: Vec<Vec2> = (0..n).map(|_| vec(r)).collect();
        let flat = |q: &[Vec2]| q.iter().flat_map(|a| b2(*a)).collect::<Vec<u32>>();
        let want = flat(&q);
        let mut source = q.clone();
        let poly = Poly2d::new(&source);
        for a in source.iter_mut() { *a = Vec2::new(7.0, 7.0) }
        kept(o, "Poly2d::new", flat(&poly.points), want.clone())?;
        let mut copy = poly.clone();
        kept(o, "clone of a Poly2d", flat(&copy.points), want.clone())?;
        copy.points.push(Vec2::X);
        if n > 0 { copy.points[r.below(n)] = Vec2::new(9.0, 9.0); }
        kept(o, "Poly2d after its clone changed", flat(&poly.points), want.clone())?;
        let s = Shape2d::poly(&q);
        kept(o, "Shape2d::poly", bits(&s), [vec![3], want.clone()].concat())?;
        kept(o, "clone of a Shape2d", bits(&s.clone()), [vec![3], want.clone()].concat())?;
        if n < 20 { let f: Vec<f32> = q.iter().flat_map(|a| [a.x, a.y]).collect(); shown(o, "Poly2d", &poly, &f)?; shown(o, "Shape2d", &s, &f)?; }
        // a box as a polygon has its corners
        let corners: Poly2d = Box2d::with_halfdims(x, y).into();
        let mut got: Vec<Vec<u32>> = corners.points.iter().map(|a| b2(Vec2::new(a.x.abs(), a.y.abs()))).collect();
        got.dedup();
        if x == x && y == y {
            kept(o, "corners of a box", got.concat(), b2(Vec2::new(x.abs(), y.abs())))?;
            let mut signs: Vec<(bool, bool)> = corners.points.iter().map(|a| (a.x.is_sign_negative(), a.y.is_sign_negative())).collect();
            signs.sort();
            if signs != [(false, false), (false, true), (true, false), (true, true)] { return violation("kept/corners", format!("box ({x},{y}) as a polygon is {corners:?}")); }
        }
        // defaults
        kept(o, "default Ball", vec![Ball::default().radius.to_bits()], vec![0])?;
        kept(o, "default Box2d", b2(Box2d::default().halfsize), vec![0, 0])?;
        kept(o, "default Box3d", b3(Box3d::default().halfsize), vec![0, 0, 0])?;
        if !Poly2d::default().points.is_empty() { return violation("default/Poly2d", "a default polygon has points"); }
        equal(o, "Point", &Point, &Point::from(()), true)?;
        equal(o, "Point", &Point, &Point::default(), true)?;
        // asking does not change
        let (b, s) = (Ball::new(x), Box2d::with_halfdims(x, y));
        let _ = (b.extreme_point(Vec2::X), b.symmetric_bounding_box(), s.extreme_point(vec(r)), s.symmetric_bounding_box(), b.collides_rel(&s, &vec(r)));
        kept(o, "shapes after queries", vec![b.radius.to_bits(), s.halfsize.x.to_bits(), s.halfsize.y.to_bits()], vec![x.to_bits(), x.to_bits(), y.to_bits()])?;
        o.class(format!("shapes {} {} {n}", class(x), class(y)));
        o.sample(|| format!("{x} {y} {z} and {n} points"));
        Ok(())
    });
    ctx.stream("placements", ctx.scale(60_000), |r, o, _| {
        let (p, a, k) = (vec(r), num(r), num(r));
        let s = vec(r);
        o.fpf(&[p.x, p.y, a, k, s.x, s.y]);
        o.nontrivial();
        let (pb, sb) = (b2(p), b2(s));
        // a translation, as a vector and as a type of its own
        let t = Translate2d::new(p);
        kept(o, "Translate2d::new", b2(t.apply_origin()), pb.clone())?;
        kept(o, "Translate2d::from", b2(Translate2d::from(p).apply_origin()), pb.clone())?;
        kept(o, "a vector as a placement", b2(Transformation2d::apply_origin(&p)), pb.clone())?;
        kept(o, "copy of a Translate2d", probe(&t.clone()), probe(&t))?;
        equal(o, "Translate2d", &t, &Translate2d::from(p), p == p)?;
        let mut q = [p.x, p.y];
        let i = r.below(2);
        q[i] = other(r, q[i]);
        equal(o, "Translate2d", &t, &Translate2d::new(Vec2::new(q[0], q[1])), q[0] == p.x && q[1] == p.y)?;
        shown(o, "Translate2d", &t, &[p.x, p.y])?;
        let t = AxisTransform2d::new(p, k);
        kept(o, "AxisTransform2d::new", [b2(t.apply_origin()), vec![t.scaling_factor().to_bits()]].concat(), [pb.clone(), vec![k.to_bits()]].concat())?;
        // rotations
        let rot = Rotor2d::from_angle(a);
        equal(o, "Rotor2d", &rot, &rot.clone(), a.is_finite())?;
        equal(o, "Rotor2d", &Rotor2d::default(), &Rotor2d::IDENTITY, true)?;
        equal(o, "Rotor2d", &Rotor2d::from_angle(0.0), &Rotor2d::IDENTITY, true)?;
        shown(o, "Rotor2d", &rot, &[(rot * Vec2::X).x, (rot * Vec2::X).y][..if a.is_finite() { 2 } else { 0 }])?;
        // full placements, built in any order
        let mut t = Transform2d { pos: p, rot, scale: s };
        let same = |t: &Transform2d, o: &mut Obs, what: &str| -> Verdict {
            kept(o, what, [b2(t.pos), b2(t.scale)].concat(), [pb.clone(), sb.clone()].concat())?;
            if a.is_finite() && t.rot != rot { return violation(format!("kept/{what}"), format!("{what}: turned by {:?} instead of {rot:?}", t.rot)); }
            Ok(())
        };
        same(&t, o, "Transform2d")?;
        same(&t.clone(), o, "clone of a Transform2d")?;
        let mut built = match r.below(4) { 0 => Transform2d::from_translation(p), 1 => Transform2d::from_angle(a), 2 => Transform2d::from_rotation(rot), _ => Transform2d::from_scale(s) };
        let mut todo = vec![0, 1, 2];
        while !todo.is_empty() {
            match todo.swap_remove(r.below(todo.len())) { 0 => built = built.with_translation(p), 1 => built = if r.chance(0.5) { built.with_angle(a) } else { built.with_rotation(rot) }, _ => built = built.with_scale(s) }
        }
        same(&built, o, "built Transform2d")?;
        let sane = p == p && s == s && a.is_finite();
        equal(o, "Transform2d", &t, &built, sane)?;
        let before = t.clone();
        match r.below(2) { 0 => t.pos.x = other(r, t.pos.x), _ => t.scale.y = other(r, t.scale.y) }
        same(&before, o, "Transform2d after its clone's original changed")?;
        equal(o, "Transform2d", &t, &before, a.is_finite() && t.pos == p && t.scale == s)?;
        if a.is_finite() { shown(o, "Transform2d", &before, &[p.x, p.y, (rot * Vec2::X).x, (rot * Vec2::X).y, s.x, s.y])?; }
        // queries and maps change nothing
        let _ = (before.apply(p), before.unapply(s), before.apply_normal(p), before.unapply_normal(p), before.scaling_factor(), before.inverse(), before.compose(&t), t.delta_transform(&before));
        same(&before, o, "Transform2d after use")?;
        // colliders refer to what they were given
        let shape = Box2d::with_halfdims(num(r), num(r));
        let c = Collider2d::new(&shape, &before);
        let all = [c, c.clone(), Collider2d::from((&shape, &before)), Collider2d { shape: &shape, transform: &before }, { let (x,) = (c,); x }];
        for (i, x) in all.iter().enumerate() {
            if !std::ptr::eq(x.shape, &shape) || !std::ptr::eq(x.transform, &before) { return violation("collider/refers", format!("collider {i} refers to another shape or placement")); }
        }
        o.count("colliders followed", all.len() as u64);
        shown(o, "Collider2d", &c, &[shape.halfsize.x, shape.halfsize.y, p.x, p.y])?;
        let d = Collider2d::new(&shape, &built);
        if (c == d) != (shape == shape.clone() && before == built) { return violation("equal/Collider2d", format!("{c:?} == {d:?} is {}", c == d)); }
        // 3D
        let (p3, s3) = (vec3(r), vec3(r));
        let rq = Quat::from_xyzw(num(r), num(r), num(r), num(r));
        kept(o, "Translate3d::new", b3(Translate3d::new(p3).apply_origin()), b3(p3))?;
        kept(o, "Translate3d::from", b3(Translate3d::from(p3).apply_origin()), b3(p3))?;
        kept(o, "a 3D vector as a placement", b3(Transformation3d::apply_origin(&p3)), b3(p3))?;
        kept(o, "AxisTransform3d::new", b3(AxisTransform3d::new(p3, k).apply_origin()), b3(p3))?;
        let bt = Transform { translation: p3, rotation: rq, scale: s3 };
        let full = Transform3d::from(bt);
        let back: Transform = full.clone().into();
        kept(o, "Transform3d", [b3(back.translation), b4(back.rotation), b3(back.scale)].concat(), [b3(p3), b4(rq), b3(s3)].concat())?;
        kept(o, "clone of a Transform3d", probe3(&full.clone()), probe3(&full))?;
        let nan = p3.is_nan() || rq.is_nan() || s3.is_nan();
        equal(o, "Transform3d", &full, &full.clone(), !nan)?;
        let mut bt2 = bt;
        match r.below(4) { 0 => bt2.translation.y = other(r, p3.y), 1 => bt2.scale.z = other(r, s3.z), 2 => bt2.rotation.w = other(r, rq.w), _ => bt2.translation.z = other(r, p3.z) }
        let eq = eq_f(&[b3(p3), b4(rq), b3(s3)].concat(), &[b3(bt2.translation), b4(bt2.rotation), b3(bt2.scale)].concat());
        equal(o, "Transform3d", &full, &Transform3d::from(bt2), eq)?;
        shown(o, "Transform3d", &full, &[p3.x, p3.y, p3.z, rq.x, rq.y, rq.z, rq.w, s3.x, s3.y, s3.z])?;
        let iso = Isotropic3d::from(bt);
        kept(o, "Isotropic3d", b3(iso.apply_origin()), b3(p3))?;
        kept(o, "clone of an Isotropic3d", probe3(&iso.clone()), probe3(&iso))?;
        if p3 == p3 && !rq.is_nan() && s3 == s3 { equal(o, "Isotropic3d", &iso, &iso.clone(), true)?; }
        shown(o, "Isotropic3d", &iso, &[p3.x, p3.y, p3.z, rq.x, rq.y, rq.z, rq.w])?;
        // defaults leave everything where it is
        let (u, u3) = (vec(r), vec3(r));
        for (n, got) in [("Translate2d", Translate2d::default().apply(u)), ("AxisTransform2d", AxisTransform2d::default().apply(u)), ("Transform2d", Transform2d::default().apply(u)), ("IdentityTransform", Transformation2d::apply(&IdentityTransform, u))] {
            if u.is_finite() && got != u { return violation(format!("default/{n}"), format!("default {n} maps {u:?} to {got:?}")); }
        }
        let m = u3.abs().max_element();
        for (n, got) in [("Translate3d", Translate3d::default().apply(u3)), ("AxisTransform3d", AxisTransform3d::default().apply(u3)), ("Transform3d", Transform3d::default().apply(u3)), ("Isotropic3d", Isotropic3d::default().apply(u3)), ("IdentityTransform", Transformation3d::apply(&col3d::IdentityTransform, u3))] {
            // rotating by the identity adds products with zero
            if u3.is_finite() && m < 1e38 && !((got - u3).abs().max_element() <= 4e-7 * m) { return violation(format!("default/{n}"), format!("default {n} maps {u3:?} to {got:?}")); }
        }
        o.count("default placements applied", 9);
        o.class(format!("placements {} {} {} {}", class(p.x), class(p.y), class(a), class(s.x)));
        o.sample(|| format!("{p:?} {a} {s:?} {p3:?} {rq:?} {s3:?}"));
        Ok(())
    });
    ctx.stream("rectangles, maps and ledgers", ctx.scale(4_000), |r, o, _| {
        let int = |r: &mut Rng| match r.below(4) { 0 => r.pick(&[0, 1, -1, i32::MIN, i32::MAX]), 1 => r.u64() as u32 as i32, _ => r.int(-100, 100) as i32 };
        let (a, b, c, d) = (int(r), int(r), int(r), int(r));
        o.fp((a, b, c, d));
        o.nontrivial();
        let q = Rect2i32::min_max(V2i32::from_xy(a, b), V2i32::from_xy(c, d));
        if (q.min.x(), q.min.y(), q.max.x(), q.max.y()) != (a, b, c, d) { return violation("kept/Rect2i32", format!("({a},{b})..({c},{d}) became {q:?}")); }
        let text = format!("{q:?}");
        for x in [a, b, c, d] { if !text.contains(&x.to_string()) { return violation("shown/Rect2i32", format!("{x} is missing from {text}")); } }
        let m = Tilemap::default();
        if !m.events.events.is_empty() || m.get_tile(V2i32::from_xy(a, b)) != 0 || m.get_chunk(&V2i32::from_xy(c, d)).is_some() { return violation("default/Tilemap", format!("a new map is not empty at ({a},{b}) or chunk ({c},{d})")); }
        let ch = Chunk::default();
        let cells: Vec<Option<u8>> = (-1..17).flat_map(|y| (-1..17).map(move |x| (x, y))).map(|(x, y)| if (0..16).contains(&x) && (0..16).contains(&y) { ch.array2d.get(V2i32::from_xy(x, y)).copied() } else { Some(0) }).collect();
        if cells.iter().any(|x| *x != Some(0)) { return violation("default/Chunk", format!("a new chunk holds {:?}", ch.array2d.data)); }
        for (e, name) in [(TilemapEvent::ChunkCreated(V2i32::from_xy(a, b)), "ChunkCreated"), (TilemapEvent::ChunkRemoved(V2i32::from_xy(a, b)), "ChunkRemoved"), (TilemapEvent::ChunkChanged(V2i32::from_xy(a, b)), "ChunkChanged")] {
            let text = format!("{e:?}");
            if !text.contains(name) || !text.contains(&a.to_string()) || !text.contains(&b.to_string()) { return violation("shown/TilemapEvent", format!("{name} at ({a},{b}) is shown as {text}")); }
        }
        if !Ledger::<u8>::new().events.is_empty() || !Ledger::<u8>::default().events.is_empty() { return violation("default/Ledger", "a new ledger holds events"); }
        if auburn::utils::publisher::HashsetLedger::<u8>::new().events.len() != 0 { return violation("default/HashsetLedger", "a new ledger holds events"); }
        o.count("maps, chunks, events and ledgers looked at", 7);
        o.class(format!("rectangle {} {}", a < c, b < d));
        Ok(())
    });
}
fn class(x: f32) -> &'static str {
    if x.is_nan() { "nan" } else if x.is_infinite() { "infinite" } else if x == 0.0 { if x.is_sign_negative() { "-0" } else { "0" } } else if x.is_subnormal() { "subnormal" } else if x.abs() < 1e-3 { "small" } else if x.abs() > 1e6 { "large" } else { "ordinary" }
}
