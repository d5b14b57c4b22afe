//! Exact planar geometry on f64 coordinates (floating-point expansions): the oracle of the
//! geometric monitors. Valid as long as no product under- or overflows.

pub type P2 = [f64; 2];
pub type P3 = [f64; 3];

/// A number as an exact sum of non-overlapping doubles of increasing magnitude.
#[derive(Clone, Debug, Default)]
pub struct Ex(pub Vec<f64>);

fn two_sum(a: f64, b: f64) -> (f64, f64) {
    let x = a + b;
    let bv = x - a;
    let av = x - bv;
    (x, (a - av) + (b - bv))
}
fn split(a: f64) -> (f64, f64) {
    let c = 134217729.0 * a;
    let big = c - a;
    let hi = c - big;
    (hi, a - hi)
}
fn two_prod(a: f64, b: f64) -> (f64, f64) {
    let x = a * b;
    let (ah, al) = split(a);
    let (bh, bl) = split(b);
    let e = x - ah * bh - al * bh - ah * bl;
    (x, al * bl - e)
}

impl Ex {
    pub fn of(a: f64) -> Ex {
        Ex(if a == 0.0 { vec![] } else { vec![a] })
    }
    pub fn diff(a: f64, b: f64) -> Ex {
        let (x, y) = two_sum(a, -b);
        Ex([y, x].into_iter().filter(|v| *v != 0.0).collect())
    }
    pub fn prod(a: f64, b: f64) -> Ex {
        let (x, y) = two_prod(a, b);
        Ex([y, x].into_iter().filter(|v| *v != 0.0).collect())
    }
    pub fn grow(&mut self, b: f64) {
        let mut q = b;
        let mut r = Vec::with_capacity(self.0.len() + 1);
        for &e in &self.0 {
            let (s, h) = two_sum(q, e);
            if h != 0.0 {
                r.push(h);
            }
            q = s;
        }
        if q != 0.0 {
            r.push(q);
        }
        self.0 = r;
    }
    pub fn add(&self, o: &Ex) -> Ex {
        let mut r = self.clone();
        for &x in &o.0 {
            r.grow(x);
        }
        r
    }
    pub fn neg(&self) -> Ex {
        Ex(self.0.iter().map(|x| -x).collect())
    }
    pub fn sub(&self, o: &Ex) -> Ex {
        self.add(&o.neg())
    }
    pub fn mul(&self, o: &Ex) -> Ex {
        let mut r = Ex::default();
        for &a in &self.0 {
            for &b in &o.0 {
                let (x, y) = two_prod(a, b);
                r.grow(y);
                r.grow(x);
            }
        }
        r
    }
    pub fn sign(&self) -> i32 {
        match self.0.last() {
            None => 0,
            Some(x) if *x > 0.0 => 1,
            _ => -1,
        }
    }
    pub fn est(&self) -> f64 {
        self.0.iter().sum()
    }
}

/// Twice the exact signed area of a triangle.
pub fn orient_ex(a: P2, b: P2, c: P2) -> Ex {
    let l = Ex::diff(a[0], c[0]).mul(&Ex::diff(b[1], c[1]));
    let r = Ex::diff(a[1], c[1]).mul(&Ex::diff(b[0], c[0]));
    l.sub(&r)
}

/// 1 if a, b, c turn left, -1 right, 0 collinear.
pub fn orient(a: P2, b: P2, c: P2) -> i32 {
    let l = (a[0] - c[0]) * (b[1] - c[1]);
    let r = (a[1] - c[1]) * (b[0] - c[0]);
    let d = l - r;
    let err = 3.4e-16 * (l.abs() + r.abs());
    if d > err {
        1
    } else if d < -err {
        -1
    } else {
        orient_ex(a, b, c).sign()
    }
}

/// 1 if d is inside the circle through the counter-clockwise a, b, c, -1 outside, 0 on it.
pub fn incircle(a: P2, b: P2, c: P2, d: P2) -> i32 {
    let (adx, ady, bdx, bdy, cdx, cdy) = (a[0] - d[0], a[1] - d[1], b[0] - d[0], b[1] - d[1], c[0] - d[0], c[1] - d[1]);
    let (al, bl, cl) = (adx * adx + ady * ady, bdx * bdx + bdy * bdy, cdx * cdx + cdy * cdy);
    let det = al * (bdx * cdy - cdx * bdy) + bl * (cdx * ady - adx * cdy) + cl * (adx * bdy - bdx * ady);
    let perm = al * ((bdx * cdy).abs() + (cdx * bdy).abs()) + bl * ((cdx * ady).abs() + (adx * cdy).abs()) + cl * ((adx * bdy).abs() + (bdx * ady).abs());
    let err = 1.2e-15 * perm;
    if det > err {
        return 1;
    }
    if det < -err {
        return -1;
    }
    let v = |p: P2| (Ex::diff(p[0], d[0]), Ex::diff(p[1], d[1]));
    let (a, b, c) = (v(a), v(b), v(c));
    let lift = |p: &(Ex, Ex)| p.0.mul(&p.0).add(&p.1.mul(&p.1));
    let cr = |p: &(Ex, Ex), q: &(Ex, Ex)| p.0.mul(&q.1).sub(&q.0.mul(&p.1));
    lift(&a).mul(&cr(&b, &c)).add(&lift(&b).mul(&cr(&c, &a))).add(&lift(&c).mul(&cr(&a, &b))).sign()
}

/// How far d is inside (> 0) the circle, relative to rounding: det / perm.
pub fn incircle_margin(a: P2, b: P2, c: P2, d: P2) -> f64 {
    let (adx, ady, bdx, bdy, cdx, cdy) = (a[0] - d[0], a[1] - d[1], b[0] - d[0], b[1] - d[1], c[0] - d[0], c[1] - d[1]);
    let (al, bl, cl) = (adx * adx + ady * ady, bdx * bdx + bdy * bdy, cdx * cdx + cdy * cdy);
    let det = al * (bdx * cdy - cdx * bdy) + bl * (cdx * ady - adx * cdy) + cl * (adx * bdy - bdx * ady);
    let perm = al * ((bdx * cdy).abs() + (cdx * bdy).abs()) + bl * ((cdx * ady).abs() + (adx * cdy).abs()) + cl * ((adx * bdy).abs() + (bdx * ady).abs());
    if perm == 0.0 {
        0.0
    } else {
        det / perm
    }
}

/// Whether p is on the closed segment a-b (exact).
pub fn on_segment(p: P2, a: P2, b: P2) -> bool {
    orient(a, b, p) == 0 && p[0] >= a[0].min(b[0]) && p[0] <= a[0].max(b[0]) && p[1] >= a[1].min(b[1]) && p[1] <= a[1].max(b[1])
}

/// The interiors of both segments cross in a single point.
pub fn cross_properly(a: P2, b: P2, c: P2, d: P2) -> bool {
    orient(a, b, c) * orient(a, b, d) < 0 && orient(c, d, a) * orient(c, d, b) < 0
}

/// The closed segments have a common point.
pub fn touch(a: P2, b: P2, c: P2, d: P2) -> bool {
    if a[0].max(b[0]) < c[0].min(d[0]) || c[0].max(d[0]) < a[0].min(b[0]) || a[1].max(b[1]) < c[1].min(d[1]) || c[1].max(d[1]) < a[1].min(b[1]) {
        return false;
    }
    cross_properly(a, b, c, d) || on_segment(c, a, b) || on_segment(d, a, b) || on_segment(a, c, d) || on_segment(b, c, d)
}

/// Exactly: no two sides touch except neighbours in their common corner; corners of 180° are fine.
pub fn is_simple(p: &[P2]) -> bool {
    let n = p.len();
    if n < 3 {
        return false;
    }
    for i in 0..n {
        let (a, b, c) = (p[i], p[(i + 1) % n], p[(i + 2) % n]);
        if a == b || (orient(a, b, c) == 0 && (on_segment(c, a, b) || on_segment(a, b, c))) {
            return false;
        }
        for j in i + 2..n {
            if i == 0 && j == n - 1 {
                continue;
            }
            if touch(a, b, p[j], p[(j + 1) % n]) {
                return false;
            }
        }
    }
    true
}

/// Twice the signed area, exactly.
pub fn area2_ex(p: &[P2]) -> Ex {
    let n = p.len();
    let mut r = Ex::default();
    for i in 0..n {
        let (a, b) = (p[i], p[(i + 1) % n]);
        r = r.add(&Ex::prod(a[0], b[1])).sub(&Ex::prod(a[1], b[0]));
    }
    r
}
pub fn area2(p: &[P2]) -> f64 {
    area2_ex(p).est()
}

pub fn is_convex_strict(p: &[P2]) -> bool {
    let n = p.len();
    (0..n).all(|i| orient(p[i], p[(i + 1) % n], p[(i + 2) % n]) > 0)
}
pub fn is_convex_weak(p: &[P2]) -> bool {
    let n = p.len();
    (0..n).all(|i| orient(p[i], p[(i + 1) % n], p[(i + 2) % n]) >= 0)
}

pub fn d2(a: P2, b: P2) -> f64 {
    (a[0] - b[0]).hypot(a[1] - b[1])
}
/// Distance of a point from a segment.
pub fn seg_dist(p: P2, a: P2, b: P2) -> f64 {
    let d = [b[0] - a[0], b[1] - a[1]];
    let l = d[0] * d[0] + d[1] * d[1];
    if l == 0.0 {
        return d2(p, a);
    }
    let t = (((p[0] - a[0]) * d[0] + (p[1] - a[1]) * d[1]) / l).clamp(0.0, 1.0);
    d2(p, [a[0] + t * d[0], a[1] + t * d[1]])
}
pub fn diameter(p: &[P2]) -> f64 {
    let mut lo = [f64::MAX; 2];
    let mut hi = [f64::MIN; 2];
    for q in p {
        for k in 0..2 {
            lo[k] = lo[k].min(q[k]);
            hi[k] = hi[k].max(q[k]);
        }
    }
    d2(lo, hi)
}
pub fn magnitude(p: &[P2]) -> f64 {
    p.iter().flatten().fold(0.0f64, |a, b| a.max(b.abs()))
}
/// The smallest distance between a corner and a side that doesn't contain it.
pub fn feature_size(p: &[P2]) -> f64 {
    let n = p.len();
    let mut r = f64::MAX;
    for i in 0..n {
        for j in 0..n {
            if j != i && (j + 1) % n != i {
                r = r.min(seg_dist(p[i], p[j], p[(j + 1) % n]));
            }
        }
    }
    r
}
/// 1 inside, 0 on the outline, -1 outside (exact).
pub fn locate(q: P2, p: &[P2]) -> i32 {
    let n = p.len();
    let mut w = 0;
    for i in 0..n {
        let (a, b) = (p[i], p[(i + 1) % n]);
        if on_segment(q, a, b) {
            return 0;
        }
        if (a[1] <= q[1]) != (b[1] <= q[1]) {
            let o = orient(a, b, q);
            if a[1] <= q[1] && o > 0 {
                w += 1;
            } else if a[1] > q[1] && o < 0 {
                w -= 1;
            }
        }
    }
    if w != 0 {
        1
    } else {
        -1
    }
}

pub fn sub(a: P3, b: P3) -> P3 {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
}
pub fn addv(a: P3, b: P3) -> P3 {
    [a[0] + b[0], a[1] + b[1], a[2] + b[2]]
}
pub fn mulv(a: P3, s: f64) -> P3 {
    [a[0] * s, a[1] * s, a[2] * s]
}
pub fn dot(a: P3, b: P3) -> f64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
pub fn cross(a: P3, b: P3) -> P3 {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
pub fn len(a: P3) -> f64 {
    dot(a, a).sqrt()
}
pub fn unit(a: P3) -> P3 {
    mulv(a, 1.0 / len(a))
}
pub fn mean(p: &[P3]) -> P3 {
    let mut s = [0.0; 3];
    for q in p {
        s = addv(s, *q);
    }
    mulv(s, 1.0 / p.len() as f64)
}
/// Twice the vector area of a polygon (Newell).
pub fn newell(p: &[P3]) -> P3 {
    let o = mean(p);
    let mut s = [0.0; 3];
    for i in 0..p.len() {
        s = addv(s, cross(sub(p[i], o), sub(p[(i + 1) % p.len()], o)));
    }
    s
}
