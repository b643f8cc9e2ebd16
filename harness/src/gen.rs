//! Workload generator for 2D shapes and placements.
use crate::geo::*;
use crate::rng::Rng;
use auburn::col2d::*;

pub fn v(a: P) -> Vec2 { Vec2::new(a.x as f32, a.y as f32) }
pub fn pp(a: Vec2) -> P { p(a.x as f64, a.y as f64) }

#[derive(Clone, Debug)]
pub enum S { Pt, Ball(f32), Bx(f32, f32), Poly(Vec<Vec2>) }
impl S {
    pub fn kind(&self) -> usize { match self { S::Pt => 0, S::Ball(_) => 1, S::Bx(..) => 2, S::Poly(_) => 3 } }
    pub fn cvx(&self) -> Convex {
        match self {
            S::Pt => Convex { points: vec![p(0., 0.)], radius: 0. },
            S::Ball(r) => Convex { points: vec![p(0., 0.)], radius: *r as f64 },
            S::Bx(x, y) => {
                let (x, y) = (*x as f64, *y as f64);
                Convex { points: vec![p(x, y), p(-x, y), p(-x, -y), p(x, -y)], radius: 0. }
            }
            S::Poly(q) => Convex { points: q.iter().map(|q| pp(*q)).collect(), radius: 0. },
        }
    }
    pub fn scaled(&self, k: f32) -> S {
        match self { S::Pt => S::Pt, S::Ball(r) => S::Ball(r * k), S::Bx(x, y) => S::Bx(x * k, y * k), S::Poly(q) => S::Poly(q.iter().map(|a| *a * k).collect()) }
    }
    /// scaled, unless that leaves the range of sizes whose squares are far from the limits of f32
    pub fn rescaled(&self, k: f32) -> S { let s = self.scaled(k); if s.fits() { s } else { self.clone() } }
    pub fn fits(&self) -> bool {
        let c = self.cvx();
        let least = match self { S::Pt => 1., S::Bx(x, y) => x.min(*y) as f64, _ => c.extent() };
        least >= 1e-10 && c.extent() <= 1e10
    }
    pub fn bits(&self) -> Vec<f32> {
        match self { S::Pt => vec![], S::Ball(r) => vec![*r], S::Bx(x, y) => vec![*x, *y],
            S::Poly(q) => q.iter().flat_map(|q| [q.x, q.y]).collect() }
    }
    pub fn ball(&self) -> Ball { if let S::Ball(r) = self { Ball::new(*r) } else { panic!("harness-internal") } }
    pub fn bx(&self) -> Box2d { if let S::Bx(x, y) = self { Box2d::with_halfdims(*x, *y) } else { panic!("harness-internal") } }
    pub fn poly(&self) -> Poly2d { if let S::Poly(q) = self { Poly2d::new(q) } else { panic!("harness-internal") } }
    pub fn shape2d(&self) -> Shape2d {
        match self { S::Pt => panic!("harness-internal"), S::Ball(r) => Shape2d::ball(*r),
            S::Bx(x, y) => Shape2d::rect(*x, *y), S::Poly(q) => Shape2d::poly(q) }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum K { Ident, Vec, Translate, Axis, Full }
/// A similarity placement, expressed through one of the library's transformation types.
#[derive(Clone, Copy, Debug)]
pub struct T { pub kind: K, pub pos: Vec2, pub ang: f32, pub sc: f32 }
impl T {
    pub fn sim(&self) -> Sim {
        let (s, c) = (self.ang as f64).sin_cos();
        Sim { pos: pp(self.pos), c, s, scale: self.sc as f64 }
    }
    pub fn full(&self) -> Transform2d {
        Transform2d { pos: self.pos, rot: Rotor2d::from_angle(self.ang), scale: Vec2::splat(self.sc) }
    }
    pub fn bits(&self) -> [f32; 4] { [self.pos.x, self.pos.y, self.ang, self.sc] }
    /// the same placement limited to what `kind` can express
    pub fn limited(mut self, kind: K) -> T {
        self.kind = kind;
        match kind {
            K::Ident => { self.pos = Vec2::ZERO; self.ang = 0.; self.sc = 1. }
            K::Vec | K::Translate => { self.ang = 0.; self.sc = 1. }
            K::Axis => { self.ang = 0. }
            K::Full => {}
        }
        self
    }
}

/// How the dimensions of the shapes are drawn.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Dim { Generic, Lattice, Aspect, Round, Small, Large }
pub const DIMS: [Dim; 6] = [Dim::Generic, Dim::Lattice, Dim::Aspect, Dim::Round, Dim::Small, Dim::Large];

pub fn gen_poly_round(r: &mut Rng, n: usize, rx: f64, ry: f64) -> Vec<Vec2> {
    // polygon inscribed in an ellipse, containing the origin with margin
    loop {
        let mut an: Vec<f64> = (0..n).map(|i| (i as f64 + r.range(-0.45, 0.45)) * std::f64::consts::TAU / n as f64).collect();
        an.sort_by(|a, b| a.partial_cmp(b).unwrap());
        let ok = (0..n).all(|i| {
            let g = if i + 1 < n { an[i + 1] - an[i] } else { an[0] + std::f64::consts::TAU - an[i] };
            g < 2.9
        });
        if ok {
            let o = r.range(0., std::f64::consts::TAU);
            let mut pts: Vec<Vec2> = an.iter().map(|a| v(p(rx * (a + o).cos(), ry * (a + o).sin()))).collect();
            if r.chance(0.5) { pts.reverse(); }
            return pts;
        }
    }
}
pub fn gen_poly_lattice(r: &mut Rng) -> Vec<Vec2> {
    loop {
        let n = 3 + r.below(6);
        let pts: Vec<P> = (0..n).map(|_| p(r.int(-4, 4) as f64 * 0.5, r.int(-4, 4) as f64 * 0.5)).collect();
        let h = hull(&pts);
        if h.len() < 3 { continue; }
        let b = Body { hull: h.clone(), radius: 0. };
        if b.sd(p(0., 0.)) < -0.1 {
            let mut q: Vec<Vec2> = h.iter().map(|q| v(*q)).collect();
            let k = r.below(q.len());
            q.rotate_left(k);
            if r.chance(0.5) { q.reverse(); }
            return q;
        }
    }
}
/// Convex polygons as a user may list them: many vertices, not around the origin, thin, with repeated
/// or collinear vertices, or with the vertices in no particular order.
pub fn gen_poly_any(r: &mut Rng) -> Vec<Vec2> {
    let f = r.log(0.01, 300.);
    let mut q: Vec<Vec2> = match r.below(5) {
        0 => gen_poly_lattice(r),
        1 => { let n = 30 + r.below(270); let k = r.log(0.05, 1.); gen_poly_round(r, n, f, f * k) }
        2 => Poly2d::from(Box2d::with_halfdims(f as f32, (f * r.log(0.01, 1.)) as f32)).points,
        3 => { let n = 1 + r.below(6); hull(&(0..n).map(|_| p(r.range(-f, f), r.range(-f, f))).collect::<Vec<_>>()).iter().map(|a| v(*a)).collect() }
        _ => { let n = 3 + r.below(9); let k = r.log(0.01, 1.); gen_poly_round(r, n, f, f * k) }
    };
    let size = q.iter().map(|a| a.length()).fold(0f32, f32::max);
    match r.below(4) { 0 => {}
        1 => { let off = v(p(r.range(-1., 1.), r.range(-1., 1.))) * size * 1.5; for a in &mut q { *a += off } }
        2 => { let off = v(p(r.sign() * r.range(1., 8.), r.range(-8., 8.))) * size; for a in &mut q { *a += off } }
        _ => { let (i, j) = (r.below(q.len()), r.below(q.len())); let m = (q[i] + q[j]) * 0.5; q.push(if r.chance(0.5) { m } else { q[i] }) }
    }
    if r.chance(0.4) { for i in (1..q.len()).rev() { let j = r.below(i + 1); q.swap(i, j) } }
    q
}
pub fn gen_shape(r: &mut Rng, kind: usize, d: Dim) -> S {
    let f = |x: f64| x as f32;
    let size = |r: &mut Rng| match d {
        Dim::Generic => r.log(0.1, 10.),
        Dim::Lattice => r.int(1, 6) as f64 * 0.5,
        Dim::Aspect => r.log(0.05, 50.),
        Dim::Round => r.log(0.5, 2.),
        Dim::Small => r.log(0.01, 0.05),
        Dim::Large => r.log(50., 1000.),
    };
    match kind {
        0 => S::Pt,
        1 => S::Ball(f(size(r))),
        2 => S::Bx(f(size(r)), f(size(r))),
        _ => {
            if d == Dim::Lattice { return S::Poly(gen_poly_lattice(r)); }
            let n = match d { Dim::Round if r.chance(0.06) => 40 + r.below(240), Dim::Round => 8 + r.below(25), _ => 3 + r.below(8) };
            let rx = size(r);
            let ry = match d { Dim::Aspect => rx * r.log(0.1, 1.0), Dim::Round => rx, _ => rx * r.log(0.4, 1.0) };
            if r.chance(0.1) {
                let n = 3 + r.below(10);
                let q = if r.chance(0.5) { Poly2d::regular(n, f(rx)) } else { Poly2d::regular_upright(n, f(rx)) };
                return S::Poly(q.points);
            }
            if r.chance(0.05) { return S::Poly(Poly2d::from(Box2d::with_halfdims(f(rx), f(ry))).points); }
            S::Poly(gen_poly_round(r, n, rx, ry))
        }
    }
}

/// How the second shape is placed relative to the first.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Place { Uniform, Near, Lattice, Axis, Deep, Far }
pub const PLACES: [Place; 6] = [Place::Uniform, Place::Near, Place::Lattice, Place::Axis, Place::Deep, Place::Far];

#[derive(Clone, Debug)]
pub struct Case {
    pub a: S,
    pub b: S,
    /// relative placement of b in a's frame
    pub rel: T,
    pub dim: Dim,
    pub place: Place,
    pub diff: Body,
    pub sd: f64,
    pub ext: f64,
    pub dist: f64,
}
impl Case {
    pub fn desc(&self) -> String {
        format!("a={:?} b={:?} rel={:?} exact_signed_distance={:.9} ({:?}/{:?})", self.a, self.b, self.rel, self.sd, self.dim, self.place)
    }
    /// absolute slack for float rounding
    pub fn tol(&self, k: f64) -> f64 { k * (self.ext + self.dist) }
    pub fn relation(&self) -> &'static str { if self.sd < 0. { "overlap" } else { "apart" } }
    pub fn class(&self, tag: &str) -> String {
        let g = (self.sd.abs() / self.ext.max(1e-9)).log10().floor().clamp(-4., 3.) as i64;
        format!("{tag}{}-{} {:?} {:?} {:?} {} 1e{}", ["Point","Ball","Box","Poly"][self.a.kind()], ["Point","Ball","Box","Poly"][self.b.kind()],
            self.rel.kind, self.dim, self.place, self.relation(), g)
    }
}

pub fn gen_angle(r: &mut Rng) -> f32 {
    match r.below(6) {
        0 => 0.0,
        1 => (r.int(-8, 8) as f64 * std::f64::consts::FRAC_PI_4) as f32,
        2 => (r.int(-4, 4) as f64 * std::f64::consts::FRAC_PI_2) as f32,
        3 => (r.sign() * r.log(1e-6, 1e-2)) as f32,
        _ => r.range(-7., 7.) as f32,
    }
}

pub fn gen_case(r: &mut Rng, ka: usize, kb: usize, kind: K, dims: &[Dim]) -> Case {
    let dim = r.pick(dims);
    let place = r.pick(&PLACES);
    let mut a = gen_shape(r, ka, dim);
    let other = if r.chance(0.1) { r.pick(dims) } else { dim };
    let mut b = gen_shape(r, kb, other);
    // the unit of length is the user's choice
    if r.chance(0.15) { let unit = (if r.chance(0.2) { r.log(1e-9, 1e9) } else { r.log(1e-3, 1e3) }) as f32; a = a.rescaled(unit); b = b.rescaled(unit); }
    if r.chance(0.05) { b = b.rescaled(r.log(1e-3, 1e3) as f32); }
    place_case(r, a, b, kind, dim, place)
}

pub fn place_case(r: &mut Rng, a: S, b: S, kind: K, dim: Dim, place: Place) -> Case {
    let ang = if dim == Dim::Lattice && r.chance(0.7) { (r.int(-4, 4) as f64 * std::f64::consts::FRAC_PI_2) as f32 * r.below(2) as f32 } else { gen_angle(r) };
    let sc = if r.chance(0.4) { 1.0 } else if r.chance(0.3) { r.pick(&[0.5f32, 2.0, 0.25, 4.0]) } else { r.log(0.2, 5.) as f32 };
    // a placement of extreme scale, of a shape drawn to suit it
    let (sc, b) = if matches!(kind, K::Axis | K::Full) && r.chance(0.05) {
        let k = r.log(1e-4, 1e4) as f32;
        let small = b.scaled(1.0 / k);
        if small.fits() && a.scaled(1.0 / k).fits() { (k, small) } else { (sc, b) }
    } else { (sc, b) };
    let mut t = T { kind, pos: Vec2::ZERO, ang, sc }.limited(kind);
    let ca = a.cvx();
    let cb0 = b.cvx();
    let cb = cb0.transformed(&t.sim());
    let ext = (ca.extent() + cb.extent()).max(if a.kind() == 0 && b.kind() == 0 { 0.1 } else { 1e-30 });
    if kind != K::Ident {
        let th = r.range(0., std::f64::consts::TAU);
        let u = p(th.cos(), th.sin());
        let pos = match place {
            Place::Uniform => u * r.range(0., 2.0 * ext),
            Place::Near => {
                let u = if r.chance(0.3) { r.pick(&[p(1., 0.), p(-1., 0.), p(0., 1.), p(0., -1.)]) } else { u };
                let d0 = difference(&ca, &cb);
                let gap = r.sign() * r.log(1e-3, 0.5) * ca.extent().min(cb.extent()).max(1e-3 * ext);
                // place so that the signed distance is about `gap`
                let (mut lo, mut hi) = (0.0, 3.0 * ext);
                for _ in 0..40 {
                    let m = 0.5 * (lo + hi);
                    if d0.sd(u * m) < gap { lo = m } else { hi = m }
                }
                u * lo
            }
            Place::Lattice => p(r.int(-16, 16) as f64, r.int(-16, 16) as f64) * (0.5 * if dim == Dim::Lattice { 1.0 } else { ext * 0.2 }),
            Place::Axis => {
                let q = r.range(0., 1.5 * ext) * r.sign();
                if r.chance(0.5) { p(q, 0.0 * r.sign()) } else { p(0.0 * r.sign(), q) }
            }
            Place::Deep => u * (ext * if r.chance(0.1) { 0. } else { r.log(1e-4, 0.3) }),
            Place::Far => u * (ext * if r.chance(0.2) { r.log(60., 1e5) } else { r.log(2., 60.) }),
        };
        t.pos = v(pos);
    }
    let diff = difference(&ca, &cb0.transformed(&t.sim()));
    let sd = diff.sd(p(0., 0.));
    let dist = pp(t.pos).len();
    Case { a, b, rel: t, dim, place, diff, sd, ext, dist }
}

/// Answers of all query modes for one placement.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct R {
    pub collides: bool,
    pub pen: Option<Vec2>,
    pub dist: Option<Vec2>,
    pub sdfv: (bool, Vec2),
    pub sdf: Option<f32>,
}
pub fn rel_all<A, B, X: Transformation2d>(a: &A, b: &B, t: &X) -> R
where A: CollidesRel2d<B, X> + PenetratesRel2d<B, X> + DistanceToRel2d<B, X> + SdfvRel2d<B, X> {
    R { collides: a.collides_rel(b, t), pen: a.penetrates_rel(b, t), dist: a.distance_to_rel(b, t), sdfv: a.sdfv_rel(b, t), sdf: None }
}
pub fn world_all<A, B, X>(a: &A, ta: &X, b: &B, tb: &X, form: usize) -> R
where A: CollidesRel2d<B, X> + PenetratesRel2d<B, X> + DistanceToRel2d<B, X> + SdfvRel2d<B, X>, X: Transformation2d + DeltaTransform + Invertible + Composable {
    let (ca, cb) = (Collider2d::new(a, ta), Collider2d { shape: b, transform: tb });
    let (ua, ub) = ((a, ta), (b, tb));
    match form {
        0 => R { collides: ca.collides(cb), pen: ca.penetrates(cb), dist: ca.distance_to(cb), sdfv: ca.sdfv(cb), sdf: None },
        1 => R { collides: ua.collides(ub), pen: ua.penetrates(ub), dist: ua.distance_to(ub), sdfv: ua.sdfv(ub), sdf: None },
        2 => R { collides: ca.collides(ub), pen: ca.penetrates(ub), dist: ca.distance_to(ub), sdfv: ca.sdfv(ub), sdf: None },
        _ => R { collides: ua.collides(cb), pen: ua.penetrates(cb), dist: ua.distance_to(cb), sdfv: ua.sdfv(cb), sdf: None },
    }
}
pub fn sdf_world<A, B, X>(a: &A, ta: &X, b: &B, tb: &X, form: usize) -> f32
where A: SdfRel2d<B>, X: Transformation2d + DeltaTransform + Invertible + Composable {
    let (ca, cb) = (Collider2d::new(a, ta), Collider2d { shape: b, transform: tb });
    let (ua, ub) = ((a, ta), (b, tb));
    match form { 0 => ca.sdf(cb), 1 => ua.sdf(ub), 2 => ca.sdf(ub), _ => ua.sdf(cb) }
}

/// with_pair!(a, b, rep, |x, y| expr [, sdf |x, y| expr]): binds concrete shapes
#[macro_export]
macro_rules! with_pair {
    ($a:expr, $b:expr, $rep:expr, |$x:ident, $y:ident| $e:expr, |$r:ident| $sdf:expr) => {{
        let (a, b) = (&$a, &$b);
        macro_rules! arm { ($p:expr, $q:expr) => {{ let ($x, $y) = (&$p, &$q); $e }} }
        macro_rules! arm_sdf { ($p:expr, $q:expr) => {{ let ($x, $y) = (&$p, &$q); let mut $r = $e; $r.sdf = Some($sdf); $r }} }
        match ($rep, a.kind(), b.kind()) {
            (1, _, _) => arm!(a.shape2d(), b.shape2d()),
            (_, 0, 0) => arm_sdf!(Point, Point),
            (_, 0, 1) => arm!(Point, b.ball()),
            (_, 0, 2) => arm!(Point, b.bx()),
            (_, 1, 0) => arm_sdf!(a.ball(), Point),
            (_, 1, 1) => arm_sdf!(a.ball(), b.ball()),
            (_, 1, 2) => arm!(a.ball(), b.bx()),
            (_, 2, 0) => arm_sdf!(a.bx(), Point),
            (_, 2, 1) => arm_sdf!(a.bx(), b.ball()),
            (_, 2, 2) => arm!(a.bx(), b.bx()),
            (_, 2, 3) => arm!(a.bx(), b.poly()),
            (_, 3, 2) => arm!(a.poly(), b.bx()),
            (_, 3, 3) => arm!(a.poly(), b.poly()),
            _ => panic!("harness-internal: unsupported pair"),
        }
    }};
}

pub fn run_rel(a: &S, b: &S, rep: usize, t: &T) -> R {
    macro_rules! go { ($t:expr) => {{ let t = &$t; with_pair!(*a, *b, rep, |x, y| rel_all(x, y, t), |r| x.sdf_rel(y, t)) }} }
    match t.kind {
        K::Vec => go!(t.pos),
        K::Translate => go!(Translate2d::from(t.pos)),
        K::Axis => go!(AxisTransform2d::new(t.pos, t.sc)),
        K::Full => go!(t.full()),
        K::Ident => {
            // IdentityTransform is not Invertible, so Point-first pairs do not accept it
            if a.kind() == 0 && b.kind() != 0 { return run_rel(a, b, rep, &T { kind: K::Full, ..*t }); }
            let t = &IdentityTransform;
            macro_rules! arm { ($p:expr, $q:expr) => { rel_all(&$p, &$q, t) } }
            macro_rules! arms { ($p:expr, $q:expr) => {{ let mut r = rel_all(&$p, &$q, t); r.sdf = Some($p.sdf_rel(&$q, t)); r }} }
            match (rep, a.kind(), b.kind()) {
                (1, _, _) => arm!(a.shape2d(), b.shape2d()),
                (_, 0, 0) => arms!(Point, Point),
                (_, 1, 0) => arms!(a.ball(), Point),
                (_, 1, 1) => arms!(a.ball(), b.ball()),
                (_, 1, 2) => arm!(a.ball(), b.bx()),
                (_, 2, 0) => arms!(a.bx(), Point),
                (_, 2, 1) => arms!(a.bx(), b.ball()),
                (_, 2, 2) => arm!(a.bx(), b.bx()),
                (_, 2, 3) => arm!(a.bx(), b.poly()),
                (_, 3, 2) => arm!(a.poly(), b.bx()),
                _ => arm!(a.poly(), b.poly()),
            }
        }
    }
}
pub fn run_world(a: &S, ta: &T, b: &S, tb: &T, rep: usize, form: usize) -> R {
    macro_rules! go { ($f:expr) => {{ let (ta, tb) = ($f(ta), $f(tb)); let (ta, tb) = (&ta, &tb);
        with_pair!(*a, *b, rep, |x, y| world_all(x, ta, y, tb, form), |r| sdf_world(x, ta, y, tb, form)) }} }
    match ta.kind {
        K::Vec | K::Ident => go!(|t: &T| t.pos),
        K::Translate => go!(|t: &T| Translate2d::from(t.pos)),
        K::Axis => go!(|t: &T| AxisTransform2d::new(t.pos, t.sc)),
        K::Full => go!(|t: &T| t.full()),
    }
}

/// All (kind a, kind b, representation) combinations the library supports.
pub const CLOSED: [(usize, usize, usize); 7] = [(0,0,0),(0,1,0),(0,2,0),(1,0,0),(1,1,0),(2,0,0),(2,1,0)];
pub const ITERATIVE: [(usize, usize, usize); 14] = [(1,2,0),(2,2,0),(2,3,0),(3,2,0),(3,3,0),
    (1,1,1),(1,2,1),(2,1,1),(1,3,1),(3,1,1),(2,2,1),(2,3,1),(3,2,1),(3,3,1)];
pub fn all_pairs() -> Vec<(usize, usize, usize)> { CLOSED.iter().chain(ITERATIVE.iter()).copied().collect() }
pub const KINDS: [K; 5] = [K::Ident, K::Vec, K::Translate, K::Axis, K::Full];
