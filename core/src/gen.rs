//! Generators of simple polygons and of frames to place them in space.

use crate::geo::*;
use vmon::Rng;

fn ccw(mut p: Vec<P2>) -> Vec<P2> {
    if area2_ex(&p).sign() < 0 {
        p.reverse();
    }
    p
}

pub fn convex(r: &mut Rng, n: usize) -> Vec<P2> {
    let (a, b) = (r.logf(0.2, 5.0), r.logf(0.2, 5.0));
    let mut t: Vec<f64> = (0..n).map(|i| (i as f64 + r.f(0.05, 0.95)) / n as f64 * std::f64::consts::TAU).collect();
    t.sort_by(f64::total_cmp);
    t.iter().map(|t| [a * t.cos(), b * t.sin()]).collect()
}
pub fn regular(r: &mut Rng, n: usize) -> Vec<P2> {
    let s = r.f(0.0, 7.0);
    (0..n).map(|i| (s + i as f64 / n as f64 * std::f64::consts::TAU).sin_cos()).map(|(y, x)| [x, y]).collect()
}
pub fn star(r: &mut Rng, n: usize) -> Vec<P2> {
    let lo = r.f(0.05, 0.9);
    let spiky = r.chance(0.3);
    (0..n)
        .map(|i| {
            let t = (i as f64 + r.f(0.1, 0.9)) / n as f64 * std::f64::consts::TAU;
            let q = if spiky { if i % 2 == 0 { 1.0 } else { lo } } else { r.f(lo, 1.0) };
            [q * t.cos(), q * t.sin()]
        })
        .collect()
}
/// Monotone in x.
pub fn monotone(r: &mut Rng, n: usize) -> Vec<P2> {
    let k = r.int(0, n - 2);
    let amp = r.f(0.05, 3.0);
    let mut lower: Vec<P2> = (0..k).map(|_| [r.f(0.01, 9.99), -r.f(0.01, amp)]).collect();
    let mut upper: Vec<P2> = (0..n - 2 - k).map(|_| [r.f(0.01, 9.99), r.f(0.01, amp)]).collect();
    lower.sort_by(|a, b| a[0].total_cmp(&b[0]));
    upper.sort_by(|a, b| b[0].total_cmp(&a[0]));
    let mut p = vec![[0.0, 0.0]];
    p.extend(lower);
    p.push([10.0, 0.0]);
    p.extend(upper);
    p
}
/// Teeth; vertices on few common horizontal lines.
pub fn comb(r: &mut Rng, n: usize) -> Vec<P2> {
    let teeth = ((n.max(6) - 2) / 4).max(1);
    let straight = r.chance(0.5);
    let mut p = vec![[0.0, -1.0], [teeth as f64 * 2.0 - 1.0, -1.0]];
    for t in (0..teeth).rev() {
        let x = t as f64 * 2.0;
        let h = if straight { 1.0 } else { r.f(0.2, 3.0) };
        let w = if straight { 0.0 } else { r.f(0.0, 0.4) };
        if t + 1 < teeth {
            p.push([x + 1.0 + if straight { 0.0 } else { 0.3 }, 0.0]);
        }
        p.push([x + 1.0 - w, h]);
        p.push([x + w, h + if straight { 0.0 } else { r.f(0.0, 0.5) }]);
        if t > 0 {
            p.push([x - if straight { 0.0 } else { 0.3 }, 0.0]);
        }
    }
    p
}
pub fn spiral(r: &mut Rng, n: usize) -> Vec<P2> {
    let k = (n.max(6)) / 2;
    let turns = r.f(0.4, (k as f64 / 6.0).clamp(0.45, 3.0));
    let at = |t: f64, o: f64| {
        let a = t * turns * std::f64::consts::TAU;
        let q = 0.5 + t * turns + o;
        [q * a.cos(), q * a.sin()]
    };
    let mut p: Vec<P2> = (0..k).map(|i| at(i as f64 / (k - 1) as f64, 0.35)).collect();
    p.extend((0..k).rev().map(|i| at(i as f64 / (k - 1) as f64, 0.0)));
    p
}
/// Grows a polygon by inserting points into sides while it stays simple.
pub fn grown(r: &mut Rng, n: usize, mut point: impl FnMut(&mut Rng) -> P2) -> Option<Vec<P2>> {
    let mut p: Vec<P2> = vec![];
    for _ in 0..60 {
        p = vec![point(r), point(r), point(r)];
        if orient(p[0], p[1], p[2]) != 0 {
            break;
        }
    }
    if orient(p[0], p[1], p[2]) == 0 {
        return None;
    }
    let mut p = ccw(p);
    let mut tries = 0;
    while p.len() < n && tries < 12 * n {
        tries += 1;
        let q = point(r);
        let m = p.len();
        let start = r.below(m);
        for o in 0..m.min(6) {
            let i = (start + o) % m;
            let (a, b) = (p[i], p[(i + 1) % m]);
            if a == q || b == q {
                continue;
            }
            // the new sides must not touch anything
            let ok = (0..m).all(|j| {
                let (c, d) = (p[j], p[(j + 1) % m]);
                if j == i {
                    return !on_segment(b, a, q) && !on_segment(a, b, q) ;
                }
                let t1 = if d == a { on_segment(c, a, q) || on_segment(q, c, d) } else { touch(a, q, c, d) };
                let t2 = if c == b { on_segment(d, b, q) || on_segment(q, c, d) } else { touch(q, b, c, d) };
                !t1 && !t2
            });
            if ok {
                p.insert(i + 1, q);
                break;
            }
        }
    }
    Some(ccw(p))
}
/// Rectilinear staircase, all coordinates integers, many collinear corners.
pub fn stairs(r: &mut Rng, n: usize) -> Vec<P2> {
    let k = (n / 2).max(2);
    let mut p = vec![[0.0, 0.0], [k as f64, 0.0]];
    for i in (1..k).rev() {
        p.push([(i + 1) as f64, (k - i) as f64]);
        p.push([i as f64, (k - i) as f64]);
        if r.chance(0.2) {
            p.push([i as f64, (k - i) as f64 + 0.5]);
        }
    }
    p.push([1.0, k as f64]);
    p.push([0.0, k as f64]);
    p.dedup();
    p
}
/// Inserts points on the sides (exactly collinear if the side is parallel to an axis).
pub fn subdivided(r: &mut Rng, p: &[P2], n: usize) -> Vec<P2> {
    let mut p = p.to_vec();
    while p.len() < n {
        let i = r.below(p.len());
        let (a, b) = (p[i], p[(i + 1) % p.len()]);
        let t = *r.pick(&[0.5, 0.25, 0.75]);
        let q = [a[0] + (b[0] - a[0]) * t, a[1] + (b[1] - a[1]) * t];
        if orient(a, b, q) != 0 || q == a || q == b {
            // keep a strictly convex or exactly collinear corner only
            if orient(a, q, b) < 0 {
                break;
            }
        }
        p.insert(i + 1, q);
    }
    p
}

pub const KINDS: &[&str] = &["triangle", "quad", "convex", "regular", "star", "monotone", "comb", "spiral", "grown", "grid", "stairs", "collinear", "zigzag", "spikes"];

/// A counter-clockwise simple polygon (checked exactly), its kind, and whether it is convex.
pub struct Poly {
    pub kind: &'static str,
    pub p: Vec<P2>,
}

pub fn polygon(r: &mut Rng, max: usize) -> Poly {
    loop {
        let kind = *r.pick(KINDS);
        if let Some(p) = of_kind(r, kind, max) {
            return Poly { kind, p };
        }
    }
}

pub fn of_kind(r: &mut Rng, kind: &'static str, max: usize) -> Option<Vec<P2>> {
    let n = if r.chance(0.5) { r.int(3, max.min(10)) } else { r.int(3, max) };
    let p = match kind {
        "triangle" => (0..3).map(|_| [r.f(-1.0, 1.0), r.f(-1.0, 1.0)]).collect(),
        "quad" => grown(r, 4, |r| [r.f(-1.0, 1.0), r.f(-1.0, 1.0)])?,
        "convex" => convex(r, n),
        "regular" => regular(r, n),
        "star" => star(r, n),
        "monotone" => monotone(r, n.max(4)),
        "comb" => comb(r, n),
        "spiral" => spiral(r, n),
        "grown" => grown(r, n, |r| [r.f(-1.0, 1.0), r.f(-1.0, 1.0)])?,
        "grid" => {
            let k = r.i64(2, 9);
            grown(r, n, move |r| [r.i64(0, k) as f64, r.i64(0, k) as f64])?
        }
        "stairs" => stairs(r, n),
        "collinear" => {
            let base = match r.below(4) {
                0 => vec![[0.0, 0.0], [4.0, 0.0], [4.0, 4.0], [0.0, 4.0]],
                1 => vec![[0.0, 0.0], [4.0, 0.0], [0.0, 4.0]],
                2 => vec![[0.0, 0.0], [4.0, 0.0], [4.0, 8.0], [2.0, 8.0], [2.0, 2.0], [0.0, 2.0]],
                _ => stairs(r, 8),
            };
            subdivided(r, &base, n.max(5))
        }
        "zigzag" => {
            let k = (n / 2).max(2);
            let mut p: Vec<P2> = (0..k).map(|i| [i as f64, if i % 2 == 0 { 0.0 } else { 2.0 }]).collect();
            p.extend((0..k).rev().map(|i| [i as f64, if i % 2 == 0 { 1.0 } else { 3.0 }]));
            p
        }
        _ => {
            // long thin spikes into a disk
            let k = (n / 3).max(1);
            let mut p = vec![];
            for i in 0..k {
                let t = |o: f64| ((i as f64 + o) / k as f64 * std::f64::consts::TAU).sin_cos();
                for (o, q) in [(0.1, 1.0), (0.4, 1.0), (0.5, r.f(0.1, 0.9))] {
                    let (s, c) = t(o);
                    p.push([q * c, q * s]);
                }
            }
            if k == 1 {
                return None;
            }
            p
        }
    };
    let p = ccw(p);
    if !is_simple(&p) || feature_size(&p) < 1e-5 * diameter(&p) {
        return None;
    }
    Some(place(r, p))
}

/// Rotates the numbering, turns, scales, and moves the polygon while keeping it simple.
pub fn place(r: &mut Rng, p: Vec<P2>) -> Vec<P2> {
    let k = r.below(p.len());
    let p: Vec<P2> = p[k..].iter().chain(&p[..k]).copied().collect();
    let f = feature_size(&p) / diameter(&p);
    let q: Vec<P2> = match r.below(6) {
        0 | 1 => p.clone(),
        2 => {
            // exact: powers of two and quarter turns
            let s = (2f64).powi(r.i64(-20, 20) as i32);
            let t = r.below(4);
            p.iter()
                .map(|q| {
                    let mut q = [q[0] * s, q[1] * s];
                    for _ in 0..t {
                        q = [-q[1], q[0]];
                    }
                    q
                })
                .collect()
        }
        3 => {
            let (s, c) = r.f(0.0, 7.0).sin_cos();
            p.iter().map(|q| [c * q[0] - s * q[1], s * q[0] + c * q[1]]).collect()
        }
        4 => {
            let s = r.logf(1e-4, 1e4);
            p.iter().map(|q| [q[0] * s, q[1] * s]).collect()
        }
        _ => {
            let d = diameter(&p);
            let o = [r.f(-1.0, 1.0) * d * 30.0, r.f(-1.0, 1.0) * d * 30.0];
            p.iter().map(|q| [q[0] + o[0], q[1] + o[1]]).collect()
        }
    };
    let ok = area2_ex(&q).sign() > 0 && is_simple(&q) && feature_size(&q) > 0.5 * f * diameter(&q);
    if ok {
        q
    } else {
        p
    }
}

/// An orthonormal frame and an origin in space.
#[derive(Clone, Copy, Debug)]
pub struct Frame {
    pub o: P3,
    pub x: P3,
    pub y: P3,
    pub z: P3,
}
impl Frame {
    pub fn random(r: &mut Rng, size: f64) -> Frame {
        let axis = |r: &mut Rng| -> P3 {
            let mut v = [0.0; 3];
            v[r.below(3)] = if r.chance(0.5) { 1.0 } else { -1.0 };
            v
        };
        let any = |r: &mut Rng| loop {
            let v = [r.normal(), r.normal(), r.normal()];
            if len(v) > 1e-3 {
                return unit(v);
            }
        };
        let z = if r.chance(0.3) {
            axis(r)
        } else if r.chance(0.15) {
            // almost (anti)parallel to an axis
            let a = axis(r);
            let e = r.logf(1e-12, 1e-3);
            let b = any(r);
            unit(addv(a, mulv(b, e)))
        } else {
            any(r)
        };
        let mut h = any(r);
        if r.chance(0.5) {
            h = axis(r);
        }
        let mut x = cross(h, z);
        while len(x) < 0.1 {
            h = any(r);
            x = cross(h, z);
        }
        let x = unit(x);
        let y = cross(z, x);
        let o = if r.chance(0.5) { [0.0; 3] } else { [r.f(-3.0, 3.0) * size, r.f(-3.0, 3.0) * size, r.f(-3.0, 3.0) * size] };
        Frame { o, x, y, z }
    }
    pub fn at(&self, p: P2) -> P3 {
        addv(self.o, addv(mulv(self.x, p[0]), mulv(self.y, p[1])))
    }
    pub fn at3(&self, p: P3) -> P3 {
        addv(self.at([p[0], p[1]]), mulv(self.z, p[2]))
    }
    pub fn to2(&self, p: P3) -> P2 {
        let d = sub(p, self.o);
        [dot(d, self.x), dot(d, self.y)]
    }
    pub fn height(&self, p: P3) -> f64 {
        dot(sub(p, self.o), self.z)
    }
}
