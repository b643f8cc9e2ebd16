//! Reference geometry in f64, written independently of the library: a shape is a convex hull of
//! points inflated by a radius; two shapes are compared through the explicit hull of all pairwise
//! differences (brute force, no GJK, no EPA).
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct P {
    pub x: f64,
    pub y: f64,
}
pub fn p(x: f64, y: f64) -> P {
    P { x, y }
}
impl std::ops::Add for P { type Output = P; fn add(self, o: P) -> P { p(self.x + o.x, self.y + o.y) } }
impl std::ops::Sub for P { type Output = P; fn sub(self, o: P) -> P { p(self.x - o.x, self.y - o.y) } }
impl std::ops::Mul<f64> for P { type Output = P; fn mul(self, k: f64) -> P { p(self.x * k, self.y * k) } }
impl std::ops::Neg for P { type Output = P; fn neg(self) -> P { p(-self.x, -self.y) } }
impl P {
    pub fn dot(self, o: P) -> f64 { self.x * o.x + self.y * o.y }
    pub fn cross(self, o: P) -> f64 { self.x * o.y - self.y * o.x }
    pub fn len(self) -> f64 { self.x.hypot(self.y) }
}

/// Similarity transform: p -> rot(scale * p) + pos
#[derive(Clone, Copy, Debug)]
pub struct Sim {
    pub pos: P,
    pub c: f64,
    pub s: f64,
    pub scale: f64,
}
impl Sim {
    pub fn rotate(&self, v: P) -> P { p(self.c * v.x - self.s * v.y, self.s * v.x + self.c * v.y) }
    pub fn unrotate(&self, v: P) -> P { p(self.c * v.x + self.s * v.y, -self.s * v.x + self.c * v.y) }
    pub fn apply(&self, v: P) -> P { self.rotate(v * self.scale) + self.pos }
}

/// conv(points) inflated by radius
#[derive(Clone, Debug)]
pub struct Convex {
    pub points: Vec<P>,
    pub radius: f64,
}
impl Convex {
    pub fn transformed(&self, t: &Sim) -> Convex {
        Convex { points: self.points.iter().map(|&q| t.apply(q)).collect(), radius: self.radius * t.scale.abs() }
    }
    /// support value
    pub fn h(&self, d: P) -> f64 {
        self.points.iter().map(|q| q.dot(d)).fold(f64::NEG_INFINITY, f64::max) + self.radius * d.len()
    }
    pub fn extent(&self) -> f64 {
        self.points.iter().map(|q| q.len()).fold(0.0, f64::max) + self.radius
    }
}

pub fn hull(pts: &[P]) -> Vec<P> {
    let mut v: Vec<P> = pts.to_vec();
    v.sort_by(|a, b| a.x.partial_cmp(&b.x).unwrap().then(a.y.partial_cmp(&b.y).unwrap()));
    v.dedup();
    if v.len() < 3 {
        return v;
    }
    let build = |it: &mut dyn Iterator<Item = P>| {
        let mut h: Vec<P> = vec![];
        for q in it {
            while h.len() >= 2 && (h[h.len() - 1] - h[h.len() - 2]).cross(q - h[h.len() - 1]) <= 0.0 {
                h.pop();
            }
            h.push(q);
        }
        h
    };
    let mut lo = build(&mut v.iter().copied());
    let mut hi = build(&mut v.iter().rev().copied());
    lo.pop();
    hi.pop();
    lo.extend(hi);
    lo
}

fn closest_on_segment(a: P, b: P) -> P {
    let ab = b - a;
    let d = ab.dot(ab);
    if d == 0.0 { return a; }
    let t = (-(a.dot(ab)) / d).clamp(0.0, 1.0);
    a + ab * t
}

/// conv(points)+radius with its hull computed once
#[derive(Clone, Debug)]
pub struct Body {
    pub hull: Vec<P>,
    pub radius: f64,
}
impl Body {
    pub fn new(c: &Convex) -> Body {
        Body { hull: hull(&c.points), radius: c.radius }
    }
    /// Signed distance of the point `o`, negative inside. Brute force over the hull edges.
    pub fn sd(&self, o: P) -> f64 {
        let h = &self.hull;
        let core = match h.len() {
            0 => panic!("harness-internal: empty shape"),
            1 => (h[0] - o).len(),
            2 => closest_on_segment(h[0] - o, h[1] - o).len(),
            n => {
                // ccw hull; inside iff left of every edge
                let mut inside = true;
                let mut depth = f64::INFINITY;
                let mut dist = f64::INFINITY;
                for i in 0..n {
                    let (a, b) = (h[i] - o, h[(i + 1) % n] - o);
                    let e = b - a;
                    let s = e.cross(-a) / e.len(); // >0: left
                    if s < 0.0 { inside = false; }
                    depth = depth.min(s);
                    dist = dist.min(closest_on_segment(a, b).len());
                }
                if inside { -depth } else { dist }
            }
        };
        core - self.radius
    }
}

/// A - B
pub fn difference(a: &Convex, b: &Convex) -> Body {
    if a.points.len() * b.points.len() > 2500 { return merged_difference(a, b); }
    let mut pts = Vec::with_capacity(a.points.len() * b.points.len());
    for &x in &a.points { for &y in &b.points { pts.push(x - y); } }
    Body { hull: hull(&pts), radius: a.radius + b.radius }
}

/// The same for shapes of many vertices: the edges of both hulls, in the order of their angles.
pub fn merged_difference(a: &Convex, b: &Convex) -> Body {
    let ha = hull(&a.points);
    let hb = hull(&b.points.iter().map(|q| -*q).collect::<Vec<_>>());
    if ha.len() < 3 || hb.len() < 3 {
        let mut pts = Vec::with_capacity(ha.len() * hb.len());
        for &x in &ha { for &y in &hb { pts.push(x + y); } }
        return Body { hull: hull(&pts), radius: a.radius + b.radius };
    }
    // both hulls start at their leftmost (then lowest) vertex and run counter-clockwise
    let (n, m) = (ha.len(), hb.len());
    let (mut i, mut j) = (0, 0);
    let mut pts = Vec::with_capacity(n + m);
    while i < n || j < m {
        pts.push(ha[i % n] + hb[j % m]);
        let (ea, eb) = (ha[(i + 1) % n] - ha[i % n], hb[(j + 1) % m] - hb[j % m]);
        let turn = ea.cross(eb);
        if j >= m || (i < n && turn > 0.0) { i += 1 } else if i >= n || turn < 0.0 { j += 1 } else { i += 1; j += 1 }
    }
    Body { hull: hull(&pts), radius: a.radius + b.radius }
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn merged_is_brute_force() {
        let mut r = crate::rng::Rng::new(1, 2, 3);
        for _ in 0..20000 {
            let mut shape = || { let n = 1 + r.below(12); let l = r.chance(0.4); Convex { points: (0..n).map(|_| if l { p(r.int(-4, 4) as f64, r.int(-4, 4) as f64) } else { p(r.range(-1., 1.), r.range(-1., 1.)) }).collect(), radius: 0.5 } };
            let (a, b) = (shape(), shape());
            let (x, y) = (difference(&a, &b), merged_difference(&a, &b));
            for _ in 0..5 {
                let o = p(r.range(-9., 9.), r.range(-9., 9.));
                assert!((x.sd(o) - y.sd(o)).abs() < 1e-9, "{a:?} {b:?} {o:?}: {} {}", x.sd(o), y.sd(o));
            }
        }
    }
}
