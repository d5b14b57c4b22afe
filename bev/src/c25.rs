//! C25 transformations of both backends.

use bevy::math::{Affine2, Quat, Vec2 as B2, Vec3 as B3, Vec4 as B4};
use bevy::transform::components::Transform as TransformBevy;
use procedural_modelling::extensions::nalgebra::*;
use procedural_modelling::prelude::*;
use std::f64::consts::{PI, TAU};
use vmon::{w, Case, Property, Rng};

/// An affine map in f64 with bounds of the magnitudes that occurred.
#[derive(Clone, Debug)]
pub struct Mdl<const D: usize> {
    pub m: [[f64; D]; D],
    t: [f64; D],
    am: [[f64; D]; D],
    at: [f64; D],
    steps: f64,
}
impl<const D: usize> Mdl<D> {
    pub fn new(m: [[f64; D]; D], t: [f64; D]) -> Self {
        Mdl { m, t, am: m.map(|r| r.map(f64::abs)), at: t.map(f64::abs), steps: 1.0 }
    }
    pub fn id() -> Self {
        Self::new(std::array::from_fn(|i| std::array::from_fn(|j| if i == j { 1.0 } else { 0.0 })), [0.0; D])
    }
    pub fn scale(v: [f64; D]) -> Self {
        Self::new(std::array::from_fn(|i| std::array::from_fn(|j| if i == j { v[i] } else { 0.0 })), [0.0; D])
    }
    pub fn shift(v: [f64; D]) -> Self {
        Mdl { t: v, at: v.map(f64::abs), ..Self::id() }
    }
    /// first self, then o
    pub fn then(&self, o: &Self) -> Self {
        let mul = |a: &[[f64; D]; D], b: &[[f64; D]; D]| std::array::from_fn(|i| std::array::from_fn(|j| (0..D).map(|k| a[i][k] * b[k][j]).sum()));
        let app = |a: &[[f64; D]; D], v: &[f64; D], t: &[f64; D]| std::array::from_fn(|i| (0..D).map(|k| a[i][k] * v[k]).sum::<f64>() + t[i]);
        Mdl { m: mul(&o.m, &self.m), t: app(&o.m, &self.t, &o.t), am: mul(&o.am, &self.am), at: app(&o.am, &self.at, &o.at), steps: self.steps + o.steps }
    }
    pub fn apply(&self, v: &[f64; D], point: bool) -> ([f64; D], [f64; D]) {
        let k = if point { 1.0 } else { 0.0 };
        (
            std::array::from_fn(|i| (0..D).map(|j| self.m[i][j] * v[j]).sum::<f64>() + k * self.t[i]),
            std::array::from_fn(|i| (0..D).map(|j| self.am[i][j] * v[j].abs()).sum::<f64>() + k * self.at[i]),
        )
    }
}
fn norm<const D: usize>(v: &[f64; D]) -> f64 {
    v.iter().map(|x| x * x).sum::<f64>().sqrt()
}
fn dotd<const D: usize>(a: &[f64; D], b: &[f64; D]) -> f64 {
    (0..D).map(|i| a[i] * b[i]).sum()
}

/// One backend and dimension.
pub trait Back<const D: usize> {
    const NAME: &'static str;
    const E: f64;
    /// tolerated error of the rotation between two directions
    const ARC: f64;
    const HAS_ARC: bool;
    /// the type can't represent a scaling after a rotation
    const TRS: bool = false;
    type S: Scalar;
    type Vec: Vector<Self::S, D> + Transformable<D, S = Self::S, Vec = Self::Vec, Trans = Self::Tr, Rot = <Self::Tr as TransformTrait<Self::S, D>>::Rot>;
    type Tr: TransformTrait<Self::S, D, Vec = Self::Vec>;
    fn mk(v: [f64; D]) -> Self::Vec;
    fn rd(v: Self::Vec) -> [f64; D];
    fn s(v: f64) -> Self::S;
    fn rot(r: &mut Rng) -> Option<(<Self::Tr as TransformTrait<Self::S, D>>::Rot, [[f64; D]; D])>;
    fn extra(_c: &mut Case, _t: &Self::Tr, _m: &Mdl<D>) {}
    fn any(_r: &mut Rng) -> Option<(Self::Tr, Mdl<D>)> {
        None
    }
}

fn plane_rotation<const D: usize>(i: usize, j: usize, a: f64) -> [[f64; D]; D] {
    let mut m = Mdl::<D>::id().m;
    (m[i][i], m[i][j], m[j][i], m[j][j]) = (a.cos(), -a.sin(), a.sin(), a.cos());
    m
}
fn angle(r: &mut Rng) -> f64 {
    match r.below(6) {
        0 => *r.pick(&[0.0, PI / 2.0, PI, -PI / 2.0, -PI, TAU, 3.0 * PI, PI / 4.0, -3.0 * PI / 4.0]),
        1 => r.logf(1e-9, 1.0),
        2 => r.f(-20.0, 20.0),
        _ => r.f(-PI, PI),
    }
}
fn axis(r: &mut Rng) -> [f64; 3] {
    loop {
        let v = if r.chance(0.3) { std::array::from_fn(|_| r.i64(-1, 1) as f64) } else { std::array::from_fn(|_| r.normal()) };
        let l = norm(&v);
        if l > 1e-3 {
            return v.map(|x| x / l);
        }
    }
}
fn rodrigues(k: [f64; 3], a: f64) -> [[f64; 3]; 3] {
    let (s, c) = a.sin_cos();
    let x = [[0.0, -k[2], k[1]], [k[2], 0.0, -k[0]], [-k[1], k[0], 0.0]];
    std::array::from_fn(|i| std::array::from_fn(|j| (if i == j { c } else { 0.0 }) + s * x[i][j] + (1.0 - c) * k[i] * k[j]))
}

macro_rules! na {
    ($n:ident, $s:ty, $d:literal, $e:expr, $name:literal, $arc:literal, |$r:ident| $rot:expr) => {
        pub struct $n;
        impl Back<$d> for $n {
            const NAME: &'static str = $name;
            const E: f64 = $e;
            const ARC: f64 = 1e4 * $e;
            const HAS_ARC: bool = $arc;
            type S = $s;
            type Vec = VecN<$s, $d>;
            type Tr = NdAffine<$s, $d>;
            fn mk(v: [f64; $d]) -> Self::Vec {
                VecN::<$s, $d>::from(v.map(|x| x as $s))
            }
            fn rd(v: Self::Vec) -> [f64; $d] {
                std::array::from_fn(|i| v[i] as f64)
            }
            fn s(v: f64) -> $s {
                v as $s
            }
            fn rot($r: &mut Rng) -> Option<(NdRotate<$s, $d>, [[f64; $d]; $d])> {
                $rot
            }
            fn any(r: &mut Rng) -> Option<(Self::Tr, Mdl<$d>)> {
                let m: [[f64; $d]; $d] = std::array::from_fn(|_| std::array::from_fn(|_| (r.f(-2.0, 2.0) as $s) as f64));
                let t: [f64; $d] = std::array::from_fn(|_| (r.f(-10.0, 10.0) as $s) as f64);
                Some((NdAffine::new(nalgebra::SMatrix::<$s, $d, $d>::from_fn(|i, j| m[i][j] as $s), Self::mk(t)), Mdl::new(m, t)))
            }
            fn extra(c: &mut Case, t: &Self::Tr, m: &Mdl<$d>) {
                // is_about compares all coefficients
                let d = c.rng.logf(1e-3, 1e2);
                let mut v = [0.0; $d];
                let k = c.rng.below($d);
                v[k] = if c.rng.chance(0.5) { d } else { -d };
                let o = t.with_translation(Self::mk(v));
                let slack = 64.0 * $e * m.steps * (1.0 + m.at.iter().fold(0.0f64, |a, b| a.max(*b)));
                if slack < d * 0.01 {
                    c.check(t.is_about(&o, (d * 1.1) as $s) && o.is_about(t, (d * 1.1) as $s), "is-about", || format!("{t:?} and {o:?} differ by {d}"));
                    c.check(!t.is_about(&o, (d * 0.9) as $s) && !o.is_about(t, (d * 0.9) as $s), "is-about-far", || format!("{t:?} and {o:?} differ by {d}"));
                    c.count("is-about");
                }
                let _ = &o;
                c.check(t.is_about(t, 1e-30 as $s), "is-about-self", || format!("{t:?}"));
                // another coefficient of the matrix
                let (i, j) = (c.rng.below($d), c.rng.below($d));
                let mut a = nalgebra::SMatrix::<$s, $d, $d>::from_fn(|i, j| m.m[i][j] as $s);
                let b = NdAffine::<$s, $d>::new(a, Self::mk(m.t));
                let e = a[(i, j)];
                a[(i, j)] += d as $s;
                let b2 = NdAffine::<$s, $d>::new(a, Self::mk(m.t));
                let df = ((a[(i, j)] - e) as f64).abs();
                if df > 0.5 * d {
                    c.check(b.is_about(&b2, (df * 1.1) as $s) && !b.is_about(&b2, (df * 0.9) as $s), "is-about-matrix", || format!("{b:?} and {b2:?}"));
                }
            }
        }
    };
}
macro_rules! na2 { ($n:ident, $s:ty, $e:expr, $name:literal) => {
    na!($n, $s, 2, $e, $name, true, |r| {
        let a = angle(r) as $s as f64;
        let m = plane_rotation::<2>(0, 1, a);
        Some(if r.chance(0.5) { (NdRotate::from_angle(a as $s), m) } else { (NdRotate::new(nalgebra::SMatrix::<$s, 2, 2>::from_fn(|i, j| m[i][j] as $s)), m) })
    });
} }
macro_rules! na3 { ($n:ident, $s:ty, $e:expr, $name:literal) => {
    na!($n, $s, 3, $e, $name, true, |r| {
        let (k, a) = (axis(r), angle(r) as $s as f64);
        let m = rodrigues(k, a);
        Some(if r.chance(0.5) {
            let k = VecN::<$s, 3>::from(k.map(|x| x as $s));
            (NdRotate::from_axis_angle(nalgebra::Unit::new_normalize(k), a as $s), m)
        } else { (NdRotate::new(nalgebra::SMatrix::<$s, 3, 3>::from_fn(|i, j| m[i][j] as $s)), m) })
    });
} }
macro_rules! nan { ($n:ident, $s:ty, $d:literal, $e:expr, $name:literal) => {
    na!($n, $s, $d, $e, $name, false, |r| {
        let mut x = Mdl::<$d>::id();
        for _ in 0..r.int(1, 4) {
            let i = r.below($d);
            let j = (i + r.int(1, $d - 1)) % $d;
            x = x.then(&Mdl::new(plane_rotation::<$d>(i, j, angle(r)), [0.0; $d]));
        }
        let m = x.m;
        Some((NdRotate::new(nalgebra::SMatrix::<$s, $d, $d>::from_fn(|i, j| m[i][j] as $s)), m))
    });
} }
const E32: f64 = f32::EPSILON as f64;
const E64: f64 = f64::EPSILON;
na2!(N2d, f64, E64, "nalgebra64-2d");
na2!(N2f, f32, E32, "nalgebra32-2d");
na3!(N3d, f64, E64, "nalgebra64-3d");
na3!(N3f, f32, E32, "nalgebra32-3d");
nan!(N4d, f64, 4, E64, "nalgebra64-4d");
nan!(N4f, f32, 4, E32, "nalgebra32-4d");
nan!(N6d, f64, 6, E64, "nalgebra64-6d");

pub struct Bev2;
impl Back<2> for Bev2 {
    const NAME: &'static str = "bevy-2d";
    const E: f64 = E32;
    // the angle is approximated
    const ARC: f64 = 2e-3;
    const HAS_ARC: bool = true;
    type S = f32;
    type Vec = B2;
    type Tr = Affine2;
    fn mk(v: [f64; 2]) -> B2 {
        B2::new(v[0] as f32, v[1] as f32)
    }
    fn rd(v: B2) -> [f64; 2] {
        [v.x as f64, v.y as f64]
    }
    fn s(v: f64) -> f32 {
        v as f32
    }
    fn rot(r: &mut Rng) -> Option<(f32, [[f64; 2]; 2])> {
        let a = angle(r) as f32;
        Some((a, plane_rotation::<2>(0, 1, a as f64)))
    }
    fn any(r: &mut Rng) -> Option<(Affine2, Mdl<2>)> {
        let m: [[f64; 2]; 2] = std::array::from_fn(|_| std::array::from_fn(|_| (r.f(-2.0, 2.0) as f32) as f64));
        let t: [f64; 2] = std::array::from_fn(|_| (r.f(-10.0, 10.0) as f32) as f64);
        let col = |j: usize| B2::new(m[0][j] as f32, m[1][j] as f32);
        Some((Affine2::from_cols(col(0), col(1), Self::mk(t)), Mdl::new(m, t)))
    }
}
pub struct Bev3;
impl Back<3> for Bev3 {
    const NAME: &'static str = "bevy-3d";
    const E: f64 = 4.0 * E32;
    const ARC: f64 = 2e-3;
    const HAS_ARC: bool = true;
    const TRS: bool = true;
    type S = f32;
    type Vec = B3;
    type Tr = TransformBevy;
    fn mk(v: [f64; 3]) -> B3 {
        B3::new(v[0] as f32, v[1] as f32, v[2] as f32)
    }
    fn rd(v: B3) -> [f64; 3] {
        v.to_array().map(|x| x as f64)
    }
    fn s(v: f64) -> f32 {
        v as f32
    }
    fn rot(r: &mut Rng) -> Option<(Quat, [[f64; 3]; 3])> {
        let (k, a) = (axis(r), angle(r) as f32);
        Some((Quarternion::from_axis_angle(Self::mk(k), a), rodrigues(k, a as f64)))
    }
}
pub struct Bev4;
impl Back<4> for Bev4 {
    const NAME: &'static str = "bevy-4d";
    const E: f64 = E32;
    const ARC: f64 = 0.0;
    const HAS_ARC: bool = false;
    type S = f32;
    type Vec = B4;
    type Tr = <B4 as Transformable<4>>::Trans;
    fn mk(v: [f64; 4]) -> B4 {
        B4::from_array(v.map(|x| x as f32))
    }
    fn rd(v: B4) -> [f64; 4] {
        v.to_array().map(|x| x as f64)
    }
    fn s(v: f64) -> f32 {
        v as f32
    }
    fn rot(_: &mut Rng) -> Option<(<Self::Tr as TransformTrait<f32, 4>>::Rot, [[f64; 4]; 4])> {
        None
    }
    fn extra(c: &mut Case, t: &Self::Tr, m: &Mdl<4>) {
        // the sum of two maps maps to the sum of the images
        use num_traits::Zero;
        let v: [f64; 4] = std::array::from_fn(|_| (c.rng.f(-5.0, 5.0) as f32) as f64);
        let o = Self::Tr::from_translation(Self::mk(v)).with_scale(Self::mk([2.0, -1.0, 0.5, 3.0]));
        let p: [f64; 4] = std::array::from_fn(|_| (c.rng.f(-5.0, 5.0) as f32) as f64);
        let (x, mx) = m.apply(&p, true);
        let y: [f64; 4] = std::array::from_fn(|i| (p[i] + v[i]) * [2.0, -1.0, 0.5, 3.0][i]);
        let got = Self::rd((*t + o).apply(Self::mk(p)));
        let want: [f64; 4] = std::array::from_fn(|i| x[i] + y[i]);
        let tol: [f64; 4] = std::array::from_fn(|i| 64.0 * E32 * m.steps * (mx[i] + y[i].abs() + 30.0));
        c.check(close(&got, &want, &tol), "matrix-sum", || format!("{got:?} instead of {want:?}"));
        let z = Self::Tr::zero();
        c.check(z.is_zero() && !t.is_zero() && *t + z == *t && z.apply(Self::mk(p)) == B4::ZERO, "matrix-zero", || format!("{z:?}"));
    }
}

fn close<const D: usize>(got: &[f64; D], want: &[f64; D], tol: &[f64; D]) -> bool {
    (0..D).all(|i| (got[i] - want[i]).abs() <= tol[i])
}
/// Coordinates that the backend represents exactly.
pub fn vecd<const D: usize, B: Back<D>>(c: &mut Case, what: &str) -> [f64; D] {
    let r = &mut c.rng;
    let k = r.below(6);
    let v: [f64; D] = match (what, k) {
        ("scale", 0) => [r.f(0.2, 3.0); D],
        ("scale", 1) => {
            let mut v = [1.0; D];
            v[r.below(D)] = *r.pick(&[-1.0, 0.0, 2.0, 0.5]);
            v
        }
        ("scale", _) => std::array::from_fn(|_| r.logf(0.1, 10.0) * if r.chance(0.2) { -1.0 } else { 1.0 }),
        (_, 0) => {
            let mut v = [0.0; D];
            v[r.below(D)] = r.i64(-3, 3) as f64;
            v
        }
        (_, 1) => std::array::from_fn(|_| r.i64(-5, 5) as f64),
        (_, 2) => {
            let s = r.logf(1e-3, 1e3);
            std::array::from_fn(|_| r.normal() * s)
        }
        _ => std::array::from_fn(|_| r.f(-10.0, 10.0)),
    };
    B::rd(B::mk(v))
}
fn direction<const D: usize>(r: &mut Rng) -> [f64; D] {
    loop {
        let v: [f64; D] = if r.chance(0.4) { std::array::from_fn(|_| r.i64(-1, 1) as f64) } else { std::array::from_fn(|_| r.normal()) };
        let l = norm(&v);
        if l > 0.1 {
            return v.map(|x| x / l);
        }
    }
}

/// The rotation between two directions, checked by what it does.
fn arc<const D: usize, B: Back<D>>(c: &mut Case) -> Option<(B::Tr, Mdl<D>)> {
    let a = direction::<D>(&mut c.rng);
    let kind = c.rng.below(5);
    let mut b = direction::<D>(&mut c.rng);
    let near = c.rng.logf(1e-12, 1e-1);
    match kind {
        0 | 1 => {
            let s = if kind == 0 { 1.0 } else { -1.0 };
            let k = if c.rng.chance(0.4) { 0.0 } else { near };
            b = std::array::from_fn(|i| s * a[i] + k * b[i]);
            let l = norm(&b);
            b = b.map(|x| x / l);
            c.count(match (kind, k == 0.0) { (0, true) => "arc:parallel", (0, false) => "arc:nearly-parallel", (_, true) => "arc:opposite", _ => "arc:nearly-opposite" });
        }
        _ => c.count("arc:general"),
    }
    // the directions don't need to be normalised, except for bevy's quaternions
    if !B::TRS {
        let (k, l) = (c.rng.logf(1e-3, 1e3), c.rng.logf(1e-3, 1e3));
        a.map(|_| ());
        let a2 = a.map(|x| x * k);
        b = b.map(|x| x * l);
        return arc_of::<D, B>(c, a2, b);
    }
    arc_of::<D, B>(c, a, b)
}
fn arc_of<const D: usize, B: Back<D>>(c: &mut Case, a: [f64; D], b: [f64; D]) -> Option<(B::Tr, Mdl<D>)> {
    let (x, y) = (B::mk(a), B::mk(b));
    let (a, b) = (B::rd(x), B::rd(y));
    let (la, lb) = (norm(&a), norm(&b));
    c.log(format!("arc {a:?} -> {b:?}"));
    c.phase("arc");
    let t = B::Tr::from_rotation_arc(x, y);
    c.phase("judge");
    let cols: [[f64; D]; D] = std::array::from_fn(|j| {
        let mut e = [0.0; D];
        e[j] = 1.0;
        B::rd(t.apply_vec(B::mk(e)))
    });
    let m: [[f64; D]; D] = std::array::from_fn(|i| std::array::from_fn(|j| cols[j][i]));
    for i in 0..D {
        for j in 0..D {
            let want = if i == j { 1.0 } else { 0.0 };
            c.check((dotd(&cols[i], &cols[j]) - want).abs() <= 512.0 * B::E, "arc-orthogonal", || format!("{}: {m:?} isn't a rotation", B::NAME));
        }
    }
    let det = if D == 2 { m[0][0] * m[1][1] - m[0][1] * m[1][0] } else { let k = |i: usize, j: usize| m[i][j]; k(0, 0) * (k(1, 1) * k(2, 2) - k(1, 2) * k(2, 1)) - k(0, 1) * (k(1, 0) * k(2, 2) - k(1, 2) * k(2, 0)) + k(0, 2) * (k(1, 0) * k(2, 1) - k(1, 1) * k(2, 0)) };
    c.check(det > 0.0, "arc-reflection", || format!("{}: the determinant of {m:?} is {det}", B::NAME));
    let (ua, ub) = (a.map(|x| x / la), b.map(|x| x / lb));
    let mdl = Mdl::new(m, [0.0; D]);
    let r = mdl.apply(&ua, false).0;
    let err = norm(&std::array::from_fn::<f64, D, _>(|i| r[i] - ub[i]));
    c.check(err <= B::ARC, "arc", || format!("{}: {ua:?} was rotated to {r:?} instead of {ub:?} (off by {err})", B::NAME));
    c.check(B::rd(t.apply(B::mk([0.0; D]))) == [0.0; D], "arc-origin", || "the origin moved".into());
    if D == 3 {
        // the shortest rotation
        let n = [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]];
        let l = norm(&n);
        if l > 0.01 * la * lb {
            let n: [f64; D] = std::array::from_fn(|i| n[i] / l);
            let r = mdl.apply(&n, false).0;
            let err = norm(&std::array::from_fn::<f64, D, _>(|i| r[i] - n[i]));
            c.check(err <= 1e3 * B::E, "arc-axis", || format!("{}: the axis {n:?} was rotated to {r:?}", B::NAME));
            c.count("arc-axis");
        }
    }
    Some((t, mdl))
}

fn same<const D: usize, B: Back<D>>(c: &mut Case, what: &str, t: &B::Tr, m: &Mdl<D>) {
    for k in 0..4 {
        let p: [f64; D] = match k {
            0 => [0.0; D],
            1 => {
                let mut e = [0.0; D];
                e[c.rng.below(D)] = 1.0;
                e
            }
            _ => vecd::<D, B>(c, "point"),
        };
        for point in [true, false] {
            let (want, mag) = m.apply(&p, point);
            let got = B::rd(if point { t.apply(B::mk(p)) } else { t.apply_vec(B::mk(p)) });
            let tol = mag.map(|x| x * B::E * 8.0 * (m.steps + D as f64) + 1e-35);
            c.check(close(&got, &want, &tol), &format!("{what}:{}", if point { "point" } else { "vector" }), || {
                format!("{}: {p:?} was mapped to {got:?} instead of {want:?} by {t:?}", B::NAME)
            });
        }
    }
}

fn program<const D: usize, B: Back<D>>(c: &mut Case) {
    c.phase("program");
    let elementary = |c: &mut Case, allow_scale: bool| -> (&'static str, B::Tr, Mdl<D>, bool, [f64; D]) {
        loop {
            match c.rng.below(8) {
                0 => return ("identity", if c.rng.chance(0.5) { B::Tr::identity() } else { Default::default() }, Mdl::id(), false, [1.0; D]),
                1 | 2 => {
                    let v = vecd::<D, B>(c, "shift");
                    return ("translation", B::Tr::from_translation(B::mk(v)), Mdl::shift(v), false, [1.0; D]);
                }
                3 if allow_scale => {
                    let v = vecd::<D, B>(c, "scale");
                    return ("scale", B::Tr::from_scale(B::mk(v)), Mdl::scale(v), false, v);
                }
                4 | 5 => {
                    if let Some((r, m)) = B::rot(&mut c.rng) {
                        let mut m = Mdl::new(m, [0.0; D]);
                        // large angles lose precision, and products cancel
                        m.am = m.am.map(|r| r.map(|x| x + 1.0));
                        return ("rotation", B::Tr::from_rotation(r), m, true, [1.0; D]);
                    }
                }
                6 if B::HAS_ARC => {
                    if let Some((t, mut m)) = arc::<D, B>(c) {
                        m.am = m.am.map(|r| r.map(|x| x + 1.0));
                        return ("arc", t, m, true, [1.0; D]);
                    }
                }
                7 => {
                    if let Some((t, m)) = B::any(&mut c.rng) {
                        return ("any", t, m, true, [1.0; D]);
                    }
                }
                _ => {}
            }
        }
    };
    let (name, mut t, mut m, mut rotated, _) = elementary(c, true);
    c.log(format!("{} {name} {m:?}", B::NAME));
    c.count(&format!("op:{name}"));
    same::<D, B>(c, name, &t, &m);
    let n = if c.thorough { 16 } else { 9 };
    let n = { let k = c.rng.rare(n, 60); c.rng.int(1, k) };
    for _ in 0..n {
        let before = m.clone();
        let old = t;
        c.phase("step");
        // a uniform scale commutes with rotations
        let mut shear = false;
        let name = match c.rng.below(5) {
            0 => {
                let mut v = vecd::<D, B>(c, "scale");
                if B::TRS && rotated {
                    if c.rng.chance(0.98) {
                        v = [v[0]; D];
                    } else {
                        shear = v.iter().any(|x| *x != v[0]);
                    }
                }
                c.log(format!("with_scale {v:?}"));
                t = t.with_scale(B::mk(v));
                m = m.then(&Mdl::scale(v));
                "with_scale"
            }
            1 => {
                let v = vecd::<D, B>(c, "shift");
                c.log(format!("with_translation {v:?}"));
                t = t.with_translation(B::mk(v));
                m = m.then(&Mdl::shift(v));
                "with_translation"
            }
            _ => {
                let allow = !B::TRS || !rotated || c.rng.chance(0.05);
                let (k, o, om, r, v) = elementary(c, allow);
                shear = B::TRS && rotated && v.iter().any(|x| *x != v[0]);
                c.log(format!("chain {k} {om:?}"));
                c.count(&format!("op:{k}"));
                rotated |= r;
                t = t.chain(&o);
                m = m.then(&om);
                // chaining is associative with the earlier ones
                same::<D, B>(c, k, &o, &om);
                "chain"
            }
        };
        c.count(name);
        c.phase("judge");
        if shear {
            // bevy's Transform can't represent this. It may only be wrong in this way.
            c.count("shear");
            let p = B::mk(vecd::<D, B>(c, "point"));
            let (want, mag) = m.apply(&B::rd(p), true);
            let got = B::rd(t.apply(p));
            let tol = mag.map(|x| x * B::E * 8.0 * (m.steps + D as f64) + 1e-35);
            c.check(close(&got, &want, &tol), "bevy3d:scale-after-rotation", || format!("{name}: {p:?} was mapped to {got:?} instead of {want:?}"));
            return;
        }
        same::<D, B>(c, name, &t, &m);
        same::<D, B>(c, "unchanged", &old, &before);
    }
    B::extra(c, &t, &m);
    // vectors as payloads
    c.phase("vectors");
    let v = B::mk(vecd::<D, B>(c, "point"));
    let u = B::mk(vecd::<D, B>(c, "point"));
    let s = B::mk(vecd::<D, B>(c, "scale"));
    let e = |c: &mut Case, what: &str, got: B::Vec, want: [f64; D], mag: [f64; D]| {
        let got = B::rd(got);
        let tol = mag.map(|x| x * 8.0 * B::E + 1e-35);
        c.check(close(&got, &want, &tol), what, || format!("{}: {got:?} instead of {want:?}", B::NAME));
    };
    let (rv, ru, rs) = (B::rd(v), B::rd(u), B::rd(s));
    let tv = B::rd(t.apply(v));
    c.check(B::rd(v.transformed(&t)) == tv && B::rd(*v.clone().transform(&t)) == tv, "vector-transform", || format!("{}: {v:?}", B::NAME));
    let add: [f64; D] = std::array::from_fn(|i| rv[i] + ru[i]);
    let amag: [f64; D] = std::array::from_fn(|i| rv[i].abs() + ru[i].abs());
    e(c, "vector-translate", v.translated(&u), add, amag);
    e(c, "vector-translate", *v.clone().translate(&u), add, amag);
    let mul: [f64; D] = std::array::from_fn(|i| rv[i] * rs[i]);
    // the transformation also adds the other (zero) terms
    e(c, "vector-scale", v.scaled(&s), mul, mul.map(f64::abs));
    e(c, "vector-scale", *v.clone().scale(&s), mul, mul.map(f64::abs));
    if let Some((r, m)) = B::rot(&mut c.rng) {
        let m = Mdl::new(m, [0.0; D]);
        let (want, _) = m.apply(&rv, false);
        let mag = [norm(&rv) * 4.0; D];
        e(c, "vector-rotate", v.rotated(&r), want, mag);
        e(c, "vector-rotate", *v.clone().rotate(&r), want, mag);
        c.check((Vector::length(&v.rotated(&r)).to_f64() - norm(&rv)).abs() <= 32.0 * B::E * norm(&rv), "rotation-length", || format!("{}: {v:?}", B::NAME));
        let (a, b) = (v.rotated(&r), u.rotated(&r));
        c.check((a.dot(&b).to_f64() - dotd(&rv, &ru)).abs() <= 64.0 * B::E * norm(&rv) * norm(&ru), "rotation-angle", || format!("{}: {v:?} {u:?}", B::NAME));
        c.count("rotations");
    }
    // interpolation
    let k = match c.rng.below(5) { 0 => 0.0, 1 => 1.0, 2 => 0.5, 3 => c.rng.f(-1.0, 2.0), _ => c.rng.unit() };
    let k = B::s(k).to_f64();
    let l = v.lerped(&u, B::s(k));
    let want: [f64; D] = std::array::from_fn(|i| rv[i] * (1.0 - k) + ru[i] * k);
    e(c, "lerp", l, want, std::array::from_fn(|i| 2.0 * rv[i].abs().max(ru[i].abs()) * (1.0 + k.abs())));
    c.check(B::rd(*v.clone().lerp(&u, B::s(k))) == B::rd(l), "lerp-in-place", || format!("{v:?} {u:?} {k}"));
    c.check(B::rd(v.lerped(&u, B::s(0.0))) == rv, "lerp-start", || format!("{}: {v:?} {u:?}", B::NAME));
    e(c, "lerp-end", v.lerped(&u, B::s(1.0)), ru, std::array::from_fn(|i| rv[i].abs().max(ru[i].abs())));
    c.count(B::NAME);
    let h = B::rd(t.apply(v)).iter().fold(vmon::fnv(B::NAME.as_bytes()), |a, b| vmon::mix(a, b.to_bits()));
    c.state(h);
    c.fingerprint(h);
    c.nontrivial();
}

fn quaternion(c: &mut Case) {
    c.phase("quaternion");
    let (k, a) = (axis(&mut c.rng), angle(&mut c.rng).rem_euclid(TAU));
    let q = <Quat as Quarternion>::from_axis_angle(Bev3::mk(k), a as f32);
    c.log(format!("{k:?} {a}"));
    let (s, co) = (a / 2.0).sin_cos();
    let v = Quarternion::vec4(&q);
    let want = [k[0] * s, k[1] * s, k[2] * s, co];
    c.check(close(&Bev4::rd(v), &want, &[16.0 * E32; 4]), "quaternion", || format!("{v:?} instead of {want:?}"));
    let (x, b) = Quarternion::axis_angle(&q);
    let back = rodrigues(Bev3::rd(x), b as f64);
    let m = rodrigues(k, a);
    for i in 0..3 {
        c.check(close(&back[i], &m[i], &[2e-3; 3]), "axis-angle", || format!("the rotation by {a} around {k:?} became {b} around {x:?}"));
    }
    let d = direction::<3>(&mut c.rng);
    let o = Bev3::rd(<Quat as Quarternion>::identity() * Bev3::mk(d));
    c.check(o == Bev3::rd(Bev3::mk(d)), "quaternion-identity", || format!("{o:?}"));
    let e = direction::<3>(&mut c.rng);
    let r = Bev3::rd(<Quat as Quarternion>::from_rotation_arc(Bev3::mk(d), Bev3::mk(e)) * Bev3::mk(d));
    c.check(close(&r, &e, &[2e-3; 3]), "quaternion-arc", || format!("{d:?} became {r:?} instead of {e:?}"));
    c.count("quaternions");
    c.fingerprint(a.to_bits());
    c.nontrivial();
}

fn c25(c: &mut Case) {
    match c.rng.below(11) {
        0 => program::<2, N2d>(c),
        1 => program::<2, N2f>(c),
        2 => program::<3, N3d>(c),
        3 => program::<3, N3f>(c),
        4 => program::<4, N4d>(c),
        5 => program::<4, N4f>(c),
        6 => program::<6, N6d>(c),
        7 => program::<2, Bev2>(c),
        8 => program::<3, Bev3>(c),
        9 => program::<4, Bev4>(c),
        _ => quaternion(c),
    }
}

pub fn props() -> Vec<Property> {
    vec![Property {
        id: "C25",
        workloads: vec![w("compositions", 1800000, 20000000, c25)],
        floors: vec![
            ("nalgebra64-2d", 2000), ("nalgebra32-2d", 2000), ("nalgebra64-3d", 2000), ("nalgebra32-3d", 2000), ("nalgebra64-4d", 2000), ("nalgebra32-4d", 2000), ("nalgebra64-6d", 2000), ("bevy-2d", 2000), ("bevy-3d", 2000),
            ("bevy-4d", 2000), ("quaternions", 2000), ("op:identity", 5000), ("op:translation", 5000), ("op:scale", 2000), ("op:rotation", 5000), ("op:arc", 2000), ("op:any", 2000), ("chain", 20000), ("with_scale", 10000),
            ("with_translation", 10000), ("arc:parallel", 200), ("arc:opposite", 200), ("arc:nearly-parallel", 200), ("arc:nearly-opposite", 200), ("arc:general", 1000), ("arc-axis", 500), ("rotations", 10000), ("is-about", 5000),
        ],
        rule: "A case is a random composition of transformations of one backend and dimension; after every step points and vectors are compared with an affine map in double precision. Non-trivial: always.",
        assumptions: vec!["the directions of bevy's rotations in space are normalised", "rounding errors are bounded by the magnitudes of the intermediate results"],
    }]
}
