//! C20 normals, C23 planar predicates and measures, C24 sums and means.

use crate::gen;
use crate::geo::*;
use crate::prims::{pos, vp};
use crate::snap::*;
use crate::tri::{face_mesh, flat, in_plane, scene};
use procedural_modelling::extensions::nalgebra::*;
use procedural_modelling::prelude::*;
use procedural_modelling::primitives::*;
use std::collections::BTreeMap;
use std::f64::consts::PI;
use vmon::{mix, w, Case, Property};

type M3 = Mesh3d64;
type T3 = MeshType3d64PNU;

pub trait Num: Scalar + ScalarPlus {
    fn mk(x: f64) -> Self;
    fn f(self) -> f64;
    const E: f64;
    const NAME: &'static str;
}
impl Num for f64 {
    fn mk(x: f64) -> f64 {
        x
    }
    fn f(self) -> f64 {
        self
    }
    const E: f64 = f64::EPSILON;
    const NAME: &'static str = "f64";
}
impl Num for f32 {
    fn mk(x: f64) -> f32 {
        x as f32
    }
    fn f(self) -> f64 {
        self as f64
    }
    const E: f64 = f32::EPSILON as f64;
    const NAME: &'static str = "f32";
}

// ---------------------------------------------------------------------------------------- C20

fn tol_normal(q: &[P3], area2: f64) -> f64 {
    let mag = q.iter().flatten().fold(0.0f64, |a, b| a.max(b.abs()));
    1e-9 + 1e-14 * mag * mag / area2
}

fn c20_faces(c: &mut Case) {
    c.phase("setup");
    let max = *c.rng.pick(&[6, 20, 90]);
    let max = c.rng.rare(max, 150);
    let g = gen::polygon(&mut c.rng, max);
    let mut p = g.p;
    let d = diameter(&p);
    let fr = if c.rng.chance(0.2) { flat() } else { gen::Frame::random(&mut c.rng, d) };
    // seen from both sides
    let back = c.rng.chance(0.5);
    if back {
        p.reverse();
    }
    let n = p.len();
    let m = face_mesh(&p, &fr);
    c.log(format!("{} {p:?} in {:?}", g.kind, (fr.o, fr.x, fr.y)));
    c.count(&format!("kind:{}", g.kind));
    let at = pos(&m);
    let f = m.face(0);
    let q: Vec<P3> = f.vertex_ids(&m).map(|v| at[&v]).collect();
    let want = if back { mulv(fr.z, -1.0) } else { fr.z };
    let tol = tol_normal(&q, area2(&p).abs());
    c.phase("normal");
    let r = f.normal(&m);
    let r = [r.x, r.y, r.z];
    c.check(r.iter().all(|x| x.is_finite()) && len(r) > 0.0, "degenerate", || format!("the normal is {r:?}"));
    let u = unit(r);
    c.check(len(sub(u, want)) <= tol, "direction", || format!("the normal {u:?} is not {want:?}, which is perpendicular to the face and sees it counter-clockwise (tolerance {tol})"));
    // half of the newell vector: twice the area
    c.check((len(r) - area2(&p).abs() / 2.0).abs() <= tol * area2(&p).abs() || (len(r) - area2(&p).abs()).abs() <= tol * area2(&p).abs(), "length", || format!("the normal has the length {}, the area is {}", len(r), area2(&p).abs() / 2.0));
    for i in 0..n {
        let e = sub(q[(i + 1) % n], q[i]);
        c.check(dot(e, u).abs() <= tol * len(e).max(d), "perpendicular", || format!("edge {i} {e:?} is not perpendicular to the normal {u:?}"));
    }
    if crate::tri::convex_with_margin(&gen_ccw(&p)) {
        c.phase("normal_naive");
        let r = f.normal_naive(&m);
        let u = unit([r.x, r.y, r.z]);
        let (a, b, e) = (q[0], q[1], q[2]);
        let ar = len(cross(sub(b, a), sub(e, a)));
        c.check(len(sub(u, want)) <= tol_normal(&q, ar), "naive", || format!("the naive normal {u:?} is not {want:?}"));
        c.count("convex");
    }
    // the projection to the plane keeps lengths and orientation
    c.phase("vertices_2d");
    let v2: Vec<P2> = f.vertices_2d(&m).map(|(v, _)| [v.x, v.y]).collect();
    let ids: Vec<usize> = f.vertices_2d(&m).map(|(_, v)| v).collect();
    c.check(ids == f.vertex_ids(&m).collect::<Vec<_>>(), "flat-ids", || format!("vertices_2d yields {ids:?}"));
    let mag = q.iter().flatten().fold(d, |a, b| a.max(b.abs()));
    for i in 0..n {
        for j in [0, n / 2, (i + 1) % n] {
            c.check((d2(v2[i], v2[j]) - len(sub(q[i], q[j]))).abs() <= 1e-12 * mag + tol * d, "flat-distance", || format!("corners {i} and {j} have the distance {} instead of {}", d2(v2[i], v2[j]), len(sub(q[i], q[j]))));
        }
    }
    c.check(area2(&v2) > 0.0, "flat-orientation", || format!("the projected face is clockwise: {v2:?}"));
    let poly: Vec<P2> = f.as_polygon(&m).points().iter().map(|v| [v.x, v.y]).collect();
    c.check(poly == v2, "as-polygon", || format!("as_polygon gives {poly:?} instead of {v2:?}"));
    let iv: Vec<(P2, usize)> = f.vec2s(&m).iter().map(|v| ([v.vec.x, v.vec.y], v.index)).collect();
    c.check(iv == v2.iter().copied().zip(ids).collect::<Vec<_>>(), "vec2s", || format!("vec2s gives {iv:?}"));
    c.state(mix(n as u64, u[0].to_bits()));
    c.nontrivial();
}
fn gen_ccw(p: &[P2]) -> Vec<P2> {
    let mut p = p.to_vec();
    if area2_ex(&p).sign() < 0 {
        p.reverse();
    }
    p
}

fn c20_smooth(c: &mut Case) {
    let mut m = scene(c);
    let (s, _) = monitor(c, &m, "scene");
    let p = pos(&m);
    let before: BTreeMap<usize, VertexPayloadPNU<f64, 3>> = MeshBasics::vertices(&m).map(|v| (ix(v.id()), *v.payload())).collect();
    let mut normal: BTreeMap<usize, (P3, f64)> = BTreeMap::new();
    for f in s.f.keys() {
        let q: Vec<P3> = s.face_verts(*f).iter().map(|v| p[v]).collect();
        let (pp, _) = in_plane(&q);
        normal.insert(*f, (unit(newell(&q)), tol_normal(&q, area2(&pp).abs())));
    }
    c.phase("smooth");
    m.generate_smooth_normals();
    c.phase("judge");
    let (s2, _) = monitor(c, &m, "scene");
    c.check(s2.hash() == s.hash(), "topology", || "generating normals changed the links".into());
    for v in MeshBasics::vertices(&m) {
        let id = ix(v.id());
        let g = v.payload().normal();
        let g = [g.x, g.y, g.z];
        let mut e = before[&id];
        e.set_normal(*v.payload().normal());
        c.check(e == *v.payload(), "payload", || format!("vertex {id} changed from {:?} to {:?}", before[&id], v.payload()));
        c.check(g.iter().all(|x| x.is_finite()), "finite", || format!("vertex {id} got the normal {g:?}"));
        // one normal per corner of a face at the vertex
        let mut sum = [0.0; 3];
        let mut tol = 0.0f64;
        let mut k = 0.0;
        for e in s.wheel(id) {
            let f = s.e[&e].face;
            if f != NO {
                sum = addv(sum, normal[&f].0);
                tol = tol.max(normal[&f].1);
                k += 1.0;
            }
        }
        if k == 0.0 {
            c.check(g == [0.0; 3], "isolated", || format!("vertex {id} has no faces, but the normal {g:?}"));
            c.count("without-faces");
            continue;
        }
        let l = len(sum);
        if l < 1e-6 * k {
            c.count("opposite-faces");
            continue;
        }
        c.check((len(g) - 1.0).abs() <= 1e-12, "unit", || format!("vertex {id} got the normal {g:?} of length {}", len(g)));
        c.check(len(sub(g, unit(sum))) <= 4.0 * k * tol / l, "mean", || format!("vertex {id} got the normal {g:?} instead of {:?}", unit(sum)));
        c.count("vertices-judged");
        if s.boundary_out(id).len() > 0 {
            c.count("boundary-vertices");
        }
    }
    c.state(s.hash());
    c.nontrivial();
}

// ---------------------------------------------------------------------------------------- C23

/// Points that are often nearly collinear, cocircular or equal in one coordinate.
fn cloud<S: Num>(c: &mut Case, n: usize) -> Vec<P2> {
    let r = &mut c.rng;
    let kind = r.below(5);
    let s = if kind == 4 { r.logf(1e-6, 1e6) } else { 1.0 };
    let o = if r.chance(0.2) { [r.f(-50.0, 50.0), r.f(-50.0, 50.0)] } else { [0.0; 2] };
    let (a, b) = ([r.f(-1.0, 1.0), r.f(-1.0, 1.0)], [r.f(-1.0, 1.0), r.f(-1.0, 1.0)]);
    (0..n)
        .map(|_| {
            let p = match kind {
                0 => [r.i64(-4, 4) as f64, r.i64(-4, 4) as f64],
                1 => {
                    let t = r.f(-1.0, 2.0);
                    let e = r.logf(1e-12, 1e-1) * if r.chance(0.5) { 1.0 } else { -1.0 };
                    [a[0] + t * (b[0] - a[0]) + e * (b[1] - a[1]), a[1] + t * (b[1] - a[1]) - e * (b[0] - a[0])]
                }
                2 => {
                    let (y, x) = r.f(0.0, 7.0).sin_cos();
                    [x, y]
                }
                _ => [r.f(-1.0, 1.0), r.f(-1.0, 1.0)],
            };
            [S::mk(p[0] * s + o[0]).f(), S::mk(p[1] * s + o[1]).f()]
        })
        .collect()
}
fn v2<S: Num, V: Vector2D<S = S>>(p: P2) -> V {
    V::new(S::mk(p[0]), S::mk(p[1]))
}
fn back<S: Num, V: Vector2D<S = S>>(v: &V) -> P2 {
    [Vector::x(v).f(), Vector::y(v).f()]
}
/// The exact cross product (b - a) x (c - a) with a bound for the rounding of the library.
fn cross3<S: Num>(a: P2, b: P2, c: P2) -> (f64, f64) {
    let (ux, uy, vx, vy) = (b[0] - a[0], b[1] - a[1], c[0] - a[0], c[1] - a[1]);
    // other base points give other differences; all of them are at most this large
    let m = ux.abs().max(vx.abs()).max((ux - vx).abs()) * uy.abs().max(vy.abs()).max((uy - vy).abs());
    (orient_ex(a, b, c).est(), 8.0 * S::E * m + 1e-300)
}

pub fn c23_points<S: Num, V: Vector2D<S = S>>(c: &mut Case) {
    c.phase("setup");
    let p = cloud::<S>(c, 4);
    let (a, b, d, q) = (p[0], p[1], p[2], p[3]);
    let (va, vb, vd, vq) = (v2::<S, V>(a), v2::<S, V>(b), v2::<S, V>(d), v2::<S, V>(q));
    c.log(format!("{} {p:?}", S::NAME));
    c.phase("points");
    let (k, tol) = cross3::<S>(a, b, d);
    let decided = k.abs() > tol;
    c.count(if decided { "decided" } else { "on-the-boundary" });
    // convex corner at b
    if decided {
        c.check(vb.convex(va, vd) == (k > 0.0), "convex", || format!("corner {b:?} between {a:?} and {d:?}: convex is {}, the cross product is {k}", vb.convex(va, vd)));
        c.check(vb.convex(vd, va) == (k < 0.0), "convex-reversed", || format!("corner {b:?} between {d:?} and {a:?}: convex is {}", vb.convex(vd, va)));
    }
    let cr = (vb - va).perp_dot(&(vd - va)).f();
    c.check((cr - k).abs() <= tol, "perp-dot", || format!("perp_dot is {cr} instead of {k}"));
    let bs = V::barycentric_sign(va, vb, vd).f();
    c.check((bs - k).abs() <= tol, "barycentric", || format!("barycentric_sign is {bs} instead of {k}"));
    let eps = c.rng.logf(1e-9, 1.0);
    if (k.abs() - S::mk(eps).f()).abs() > tol {
        let got = vd.collinear(va, vb, S::mk(eps));
        c.check(got == (k.abs() < eps), "collinear", || format!("collinear({d:?}, {a:?}, {b:?}, {eps}) is {got}, the cross product is {k}"));
    }
    // inside
    let t = [cross3::<S>(a, b, q), cross3::<S>(b, d, q), cross3::<S>(d, a, q)];
    if decided && t.iter().all(|x| x.0.abs() > x.1) {
        let want = t.iter().all(|x| (x.0 > 0.0) == (k > 0.0));
        for (x, y, z) in [(va, vb, vd), (vb, vd, va), (vd, va, vb), (vd, vb, va)] {
            let got = vq.is_inside_triangle(x, y, z);
            c.check(got == want, "inside-triangle", || format!("{q:?} in {x:?} {y:?} {z:?}: {got}, the exact answer is {want}"));
        }
        c.count(if want { "inside" } else { "outside" });
    }
    // on a small grid nothing is rounded, so the answers are exact on the decision boundary, too
    if p.iter().flatten().all(|x| x.fract() == 0.0 && x.abs() <= 64.0) {
        c.check(vd.collinear(va, vb, S::mk(0.0)) == (k == 0.0), "grid-collinear", || format!("collinear({d:?}, {a:?}, {b:?}, 0), the cross product is exactly {k}"));
        c.count("grid-points");
    }
    // angles
    let (u, w) = ([b[0] - a[0], b[1] - a[1]], [d[0] - a[0], d[1] - a[1]]);
    let (lu, lw) = (u[0].hypot(u[1]), w[0].hypot(w[1]));
    if lu > 1e-5 && lw > 1e-5 {
        let want = k.atan2(u[0] * w[0] + u[1] * w[1]);
        let got = va.angle_tri(vb, vd).f();
        let e = (got - want).abs();
        let e = e.min((e - 2.0 * PI).abs());
        c.check(e <= 1e2 * S::E, "angle", || format!("angle at {a:?} from {b:?} to {d:?} is {got} instead of {want}"));
        c.count("angles");
    }
    let l = Vector::distance(&va, &vb).f();
    c.check((l - lu).abs() <= 8.0 * S::E * lu, "distance", || format!("distance {l} instead of {lu}"));
    let l2 = Vector::distance_squared(&va, &vb).f();
    c.check((l2 - lu * lu).abs() <= 8.0 * S::E * lu * lu, "distance-squared", || format!("squared distance {l2} instead of {}", lu * lu));
    c.check(back(&va.xy()) == a && back(&va.yx()) == [a[1], a[0]], "swizzle", || "xy or yx".into());
    c.nontrivial();
}

pub fn c23_segments<S: Num, V: Vector2D<S = S>>(c: &mut Case) {
    c.phase("setup");
    let p = cloud::<S>(c, 4);
    let l = |a: usize, b: usize| LineSegment2D::new(v2::<S, V>(p[a]), v2::<S, V>(p[b]));
    if p[0] == p[1] || p[2] == p[3] {
        return;
    }
    c.log(format!("{} {p:?}", S::NAME));
    c.phase("segments");
    let (s, t) = (l(0, 1), l(2, 3));
    let (ls, lt) = (d2(p[0], p[1]), d2(p[2], p[3]));
    c.check((s.length().f() - ls).abs() <= 8.0 * S::E * ls && (s.length_squared().f() - ls * ls).abs() <= 8.0 * S::E * ls * ls, "segment-length", || format!("length {}", s.length()));
    let m = s.midpoint();
    let mag = magnitude(&p);
    c.check(d2(back(&m), [(p[0][0] + p[1][0]) / 2.0, (p[0][1] + p[1][1]) / 2.0]) <= 8.0 * S::E * mag, "midpoint", || format!("midpoint {m:?}"));
    let dir = back(&s.direction());
    c.check(d2(dir, [(p[1][0] - p[0][0]) / ls, (p[1][1] - p[0][1]) / ls]) <= 16.0 * S::E, "direction", || format!("direction {dir:?}"));
    c.check(back(&s.start()) == p[0] && back(&s.end()) == p[1], "ends", || "start or end".into());
    // exact parameters of the intersection of the lines
    let r = [p[1][0] - p[0][0], p[1][1] - p[0][1]];
    let u = [p[3][0] - p[2][0], p[3][1] - p[2][1]];
    let den = Ex::diff(p[1][0], p[0][0]).mul(&Ex::diff(p[3][1], p[2][1])).sub(&Ex::diff(p[1][1], p[0][1]).mul(&Ex::diff(p[3][0], p[2][0]))).est();
    let eps = S::mk(*c.rng.pick(&[1e-12, 1e-9, 1e-6, 1e-3])).f();
    let eps2 = S::mk(*c.rng.pick(&[0.0, 1e-6, -1e-6, 0.1, -0.1])).f();
    let dtol = 8.0 * S::E * (r[0].abs() * u[1].abs() + r[1].abs() * u[0].abs());
    if (den.abs() - eps).abs() <= dtol {
        return;
    }
    let i = s.intersect_line(&t, S::mk(eps), S::mk(eps2));
    let j = t.intersect_line(&s, S::mk(eps), S::mk(eps2));
    if den.abs() < eps {
        c.check(i.is_none() && j.is_none(), "parallel", || format!("segments with the cross product {den} (below {eps}) intersect at {i:?}"));
        c.count("parallel");
        return;
    }
    // p0 + t1 r = p2 + t2 u
    let t1 = {
        let q = [p[2][0] - p[0][0], p[2][1] - p[0][1]];
        (q[0] * u[1] - q[1] * u[0]) / den
    };
    let t2 = {
        let q = [p[2][0] - p[0][0], p[2][1] - p[0][1]];
        (q[0] * r[1] - q[1] * r[0]) / den
    };
    let q = [p[2][0] - p[0][0], p[2][1] - p[0][1]];
    let e1 = 16.0 * S::E * ((q[0].abs() * u[1].abs() + q[1].abs() * u[0].abs()) / den.abs() + t1.abs() * (1.0 + dtol / S::E / den.abs())) + 1e-15;
    let e2 = 16.0 * S::E * ((q[0].abs() * r[1].abs() + q[1].abs() * r[0].abs()) / den.abs() + t2.abs() * (1.0 + dtol / S::E / den.abs())) + 1e-15;
    // on a small grid nothing is rounded: the segments are closed
    if eps2 == 0.0 && p.iter().flatten().all(|x| x.fract() == 0.0 && x.abs() <= 64.0) {
        let want = (0.0..=1.0).contains(&t1) && (0.0..=1.0).contains(&t2);
        let all = [i.clone(), j.clone(), l(1, 0).intersect_line(&t, S::mk(eps), S::mk(0.0)), s.intersect_line(&l(3, 2), S::mk(eps), S::mk(0.0))];
        for (k, x) in all.iter().enumerate() {
            c.check(x.is_some() == want, "grid-segments", || format!("segments {p:?} (order {k}) meet at the parameters {t1} and {t2}, but {x:?} was reported"));
        }
        c.count("grid-segments");
    }
    let inside = |x: f64, e: f64| -> Option<bool> {
        let d = (x + eps2).min(1.0 + eps2 - x);
        if d > e {
            Some(true)
        } else if d < -e {
            Some(false)
        } else {
            None
        }
    };
    match (inside(t1, e1), inside(t2, e2)) {
        (Some(true), Some(true)) => {
            let want = [p[0][0] + t1 * r[0], p[0][1] + t1 * r[1]];
            let tol = e1 * ls + e2 * lt + 16.0 * S::E * mag;
            for (k, x) in [(0, &i), (1, &j)] {
                match x {
                    None => c.fail("missed", format!("segments {p:?} (order {k}) cross at {want:?} with the parameters {t1} and {t2}, which wasn't reported")),
                    Some(x) => c.check(d2(back(x), want) <= tol, "point", || format!("segments {p:?} (order {k}) cross at {want:?}, but {x:?} was reported")),
                }
            }
            c.count("crossing");
        }
        (Some(false), _) | (_, Some(false)) => {
            c.check(i.is_none() && j.is_none(), "invented", || format!("segments {p:?} meet at the parameters {t1} and {t2}, but {i:?} {j:?} was reported with tolerance {eps2}"));
            c.count("apart");
        }
        _ => c.count("undecided"),
    }
    c.nontrivial();
}

/// Any list of points on a small grid, where nothing is rounded; also degenerate and self-overlapping polygons.
fn c23_grid_polygon<S: Num, V: Vector2D<S = S>, P: Polygon<V>>(c: &mut Case) {
    c.phase("grid-polygon");
    let n = c.rng.int(0, 7);
    let p: Vec<P2> = (0..n).map(|_| [c.rng.i64(-4, 4) as f64, c.rng.i64(-4, 4) as f64]).collect();
    let lib = |p: &[P2]| P::from_iter(p.iter().map(|q| v2::<S, V>(*q)));
    c.log(format!("{} {p:?}", S::NAME));
    let a = (0..n).map(|i| p[i][0] * p[(i + 1) % n][1] - p[(i + 1) % n][0] * p[i][1]).sum::<f64>() / 2.0;
    let queries: Vec<P2> = (0..8).map(|_| [c.rng.i64(-4, 4) as f64, c.rng.i64(-4, 4) as f64]).collect();
    let first = lib(&p);
    for k in 0..n.max(1) {
        let turned: Vec<P2> = p[k.min(n)..].iter().chain(&p[..k.min(n)]).copied().collect();
        let l = lib(&turned);
        let back = lib(&turned.iter().rev().copied().collect::<Vec<_>>());
        for (l, a) in [(&l, a), (&back, -a)] {
            c.check(l.signed_area().f() == a && l.area().f() == a.abs(), "grid-area", || format!("the area of {turned:?} (or its reverse) is {}, exactly {a}", l.signed_area()));
            c.check(a == 0.0 || (l.is_ccw() == (a > 0.0) && l.is_cw() == (a < 0.0)), "grid-orientation", || format!("{turned:?} (or its reverse) has the area {a}, but ccw is {} and cw {}", l.is_ccw(), l.is_cw()));
        }
        for q in &queries {
            let (x, y) = (l.contains(&v2::<S, V>(*q)), first.contains(&v2::<S, V>(*q)));
            c.check(x == y, "grid-contains-turned", || format!("{p:?} contains {q:?}: {y}, but {x} if the list starts at corner {k}"));
        }
    }
    c.count("grid-polygons");
    c.nontrivial();
}

pub fn c23_polygons<S: Num, V: Vector2D<S = S>, P: Polygon<V>>(c: &mut Case) {
    c.phase("setup");
    if c.rng.chance(0.1) {
        return c23_grid_polygon::<S, V, P>(c);
    }
    let max = *c.rng.pick(&[5, 12, 40]);
    let max = c.rng.rare(max, 150);
    let g = gen::polygon(&mut c.rng, max);
    let p: Vec<P2> = g.p.iter().map(|q| [S::mk(q[0]).f(), S::mk(q[1]).f()]).collect();
    let n = p.len();
    if !is_simple(&p) || area2_ex(&p).sign() <= 0 || feature_size(&p) < 1e3 * S::E * diameter(&p) {
        c.count("not-simple-in-single-precision");
        return;
    }
    let k = c.rng.below(n);
    let turned: Vec<P2> = p[k..].iter().chain(&p[..k]).copied().collect();
    let reversed: Vec<P2> = turned.iter().rev().copied().collect();
    let (d, mag) = (diameter(&p), magnitude(&p));
    c.log(format!("{} {} {p:?}", S::NAME, g.kind));
    c.count(&format!("kind:{}", g.kind));
    let lib = |p: &[P2]| P::from_iter(p.iter().map(|q| v2::<S, V>(*q)));
    let a = area2(&p) / 2.0;
    // the terms of the sum are rounded products of coordinates
    let tol = 8.0 * S::E * n as f64 * mag * mag;
    let queries: Vec<P2> = (0..12)
        .map(|i| {
            let q = match i % 4 {
                0 => {
                    // level with a corner
                    let v = *c.rng.pick(&p);
                    [v[0] + c.rng.f(-1.0, 1.0) * d, v[1]]
                }
                1 => {
                    // close to a side
                    let j = c.rng.below(n);
                    let (x, y) = (p[j], p[(j + 1) % n]);
                    let t = c.rng.f(0.0, 1.0);
                    let e = c.rng.logf(1e-7, 1e-1) * if c.rng.chance(0.5) { 1.0 } else { -1.0 };
                    [x[0] + t * (y[0] - x[0]) - e * (y[1] - x[1]), x[1] + t * (y[1] - x[1]) + e * (y[0] - x[0])]
                }
                _ => {
                    let v = *c.rng.pick(&p);
                    [v[0] + c.rng.normal() * d / 3.0, v[1] + c.rng.normal() * d / 3.0]
                }
            };
            [S::mk(q[0]).f(), S::mk(q[1]).f()]
        })
        .collect();
    for (what, q, sign) in [("", &p, 1.0), ("-turned", &turned, 1.0), ("-reversed", &reversed, -1.0)] {
        c.phase(format!("polygon{what}"));
        let l = lib(q);
        c.check(l.num_points() == n && l.points().iter().zip(q.iter()).all(|(x, y)| back(x) == *y), &format!("points{what}"), || "from_iter doesn't keep the points".into());
        let s = l.signed_area().f();
        c.check((s - sign * a).abs() <= tol, &format!("signed-area{what}"), || format!("signed area {s} instead of {}", sign * a));
        c.check((l.area().f() - a).abs() <= tol, &format!("area{what}"), || format!("area {} instead of {a}", l.area()));
        if a > tol {
            c.check(l.is_ccw() == (sign > 0.0) && l.is_cw() == (sign < 0.0), &format!("orientation{what}"), || format!("ccw {} cw {}", l.is_ccw(), l.is_cw()));
            c.count("oriented");
        }
        let m = back(&l.centroid());
        let mm = [p.iter().map(|q| q[0]).sum::<f64>() / n as f64, p.iter().map(|q| q[1]).sum::<f64>() / n as f64];
        c.check(d2(m, mm) <= 16.0 * S::E * mag, &format!("centroid{what}"), || format!("centroid {m:?} instead of {mm:?}"));
        for x in &queries {
            // far enough from all sides
            let near = (0..n).map(|i| seg_dist(*x, p[i], p[(i + 1) % n])).fold(f64::MAX, f64::min);
            if near <= 32.0 * S::E * (mag + x[0].abs() + x[1].abs()) {
                continue;
            }
            let want = locate(*x, &p) > 0;
            c.check(l.contains(&v2::<S, V>(*x)) == want, &format!("contains{what}"), || format!("{x:?}: contains is {}, exactly it is {want}", !want));
            c.count(if want { "point-inside" } else { "point-outside" });
        }
        if n <= 24 || c.rng.chance(0.2) {
            let eps = 64.0 * S::E * mag.max(d) + 1e-9 * d;
            for i in 0..n {
                for j in 0..n {
                    let adjacent = (i + 1) % n == j || (j + 1) % n == i;
                    let got = l.valid_diagonal(i, j);
                    if i == j || adjacent {
                        c.check(got == (i != j), &format!("trivial-diagonal{what}"), || format!("valid_diagonal({i}, {j}) is {got}"));
                        continue;
                    }
                    let (a, b) = (q[i], q[j]);
                    let gap = (0..n).filter(|k| *k != i && *k != j).map(|k| seg_dist(q[k], a, b)).fold(f64::MAX, f64::min);
                    let touches = (0..n).any(|k| k != i && k != j && on_segment(q[k], a, b));
                    if gap <= eps && !touches {
                        c.count("diagonal-undecided");
                        continue;
                    }
                    let (h, g) = if sign > 0.0 { (q[(i + n - 1) % n], q[(i + 1) % n]) } else { (q[(i + 1) % n], q[(i + n - 1) % n]) };
                    let cone = if orient(h, a, g) >= 0 { orient(a, b, h) > 0 && orient(a, b, g) < 0 } else { orient(a, b, h) > 0 || orient(a, b, g) < 0 };
                    let want = !touches && cone && (0..n).all(|k| !cross_properly(a, b, q[k], q[(k + 1) % n]));
                    c.check(got == want, &format!("diagonal{what}"), || format!("valid_diagonal({i}, {j}) of {q:?} is {got}, exactly it is {want}"));
                    c.count(if want { "diagonal-valid" } else { "diagonal-invalid" });
                }
            }
        }
    }
    c.nontrivial();
}

fn c23_faces(c: &mut Case) {
    c.phase("setup");
    let max = *c.rng.pick(&[6, 16, 40]);
    let max = c.rng.rare(max, 150);
    let g = gen::polygon(&mut c.rng, max);
    let mut p = g.p;
    let d0 = diameter(&p);
    // large enough for the absolute tolerances of the library
    let s = c.rng.logf(1.0, 100.0) / d0;
    for q in p.iter_mut() {
        *q = [q[0] * s, q[1] * s];
    }
    if !is_simple(&p) {
        return;
    }
    let d = diameter(&p);
    let fr = if c.rng.chance(0.3) { flat() } else { gen::Frame::random(&mut c.rng, d) };
    let m = face_mesh(&p, &fr);
    let n = p.len();
    c.log(format!("{} {p:?} in {fr:?}", g.kind));
    c.phase("faces");
    let f = m.face(0);
    c.check(f.is_planar2(&m) && f.is_planar(&m, 1e-6), "planar", || "a planar face is reported as non-planar".into());
    c.check(!f.has_self_intersections(&m) && f.is_simple(&m), "simple", || "a simple face is reported as self-intersecting".into());
    let turns: Vec<f64> = (0..n).map(|i| orient_ex(p[i], p[(i + 1) % n], p[(i + 2) % n]).est() / (d2(p[i], p[(i + 1) % n]) * d2(p[(i + 1) % n], p[(i + 2) % n]))).collect();
    if turns.iter().all(|t| t.abs() > 1e-7) {
        let want = turns.iter().all(|t| *t > 0.0);
        c.check(f.is_convex(&m) == want, "face-convex", || format!("is_convex is {}", !want));
        c.count(if want { "face-convex" } else { "face-concave" });
    }
    c.check(f.num_vertices(&m) == n && f.num_edges(&m) == n, "face-size", || "num_vertices or num_edges".into());
    // out of the plane
    if n > 3 {
        let k = c.rng.below(n);
        let h = c.rng.logf(1e-3, 0.5) * d;
        let q: Vec<P3> = (0..n).rev().map(|i| addv(fr.at(p[i]), mulv(fr.z, if i == k { h } else { 0.0 }))).collect();
        let b = M3::polygon(q.iter().map(|q| vp(*q)));
        // how far the best plane is from the corners
        let z = unit(newell(&q));
        let w = q.iter().map(|x| dot(sub(*x, mean(&q)), z).abs()).fold(0.0f64, f64::max);
        if w > 1e-5 * d {
            c.check(!b.face(0).is_planar2(&b), "bent", || format!("corner {k} is {h} above the plane of the others, but the face is reported as planar"));
            c.count("bent");
        }
    }
    // self-intersecting: two crossing sides
    if n > 3 {
        let i = c.rng.below(n);
        let j = (i + c.rng.int(2, n - 2)) % n;
        let mut q = p.clone();
        q.swap((i + 1) % n, j);
        let mut strong = false;
        for a in 0..n {
            for b in 0..n {
                let (x, y, u, v) = (q[a], q[(a + 1) % n], q[b], q[(b + 1) % n]);
                if a != b && (a + 1) % n != b && (b + 1) % n != a && cross_properly(x, y, u, v) {
                    let t = orient_ex(u, v, x).est() / (orient_ex(u, v, x).est() - orient_ex(u, v, y).est());
                    let t2 = orient_ex(x, y, u).est() / (orient_ex(x, y, u).est() - orient_ex(x, y, v).est());
                    let sin = ((y[0] - x[0]) * (v[1] - u[1]) - (y[1] - x[1]) * (v[0] - u[0])).abs();
                    strong |= (0.001..0.999).contains(&t) && (0.001..0.999).contains(&t2) && sin > 1e-6;
                }
            }
        }
        if strong && area2(&q).abs() > 1e-3 * d * d {
            let b = face_mesh(&q, &fr);
            c.check(b.face(0).has_self_intersections(&b) && !b.face(0).is_simple(&b), "self-intersection", || format!("the face with the corners {q:?} is reported as simple"));
            c.count("self-intersecting");
        }
    }
    // which triangles belong to the face
    let ids: Vec<usize> = f.vertex_ids(&m).collect();
    let sn = snap(&m).unwrap();
    for _ in 0..4 {
        let mut t = [c.rng.below(n), c.rng.below(n), c.rng.below(n)];
        if c.rng.chance(0.5) {
            t[1] = (t[0] + 1) % n;
        }
        if t[0] == t[1] || t[1] == t[2] || t[2] == t[0] {
            continue;
        }
        let v = t.map(|k| ids[k]);
        let e: Vec<bool> = (0..3).filter_map(|k| sn.shared(v[k], v[(k + 1) % 3])).map(|e| sn.e[&e].face == 0).collect();
        let got = Face::triangle_touches_boundary(f, &m, v[0], v[1], v[2]);
        let want = if e.is_empty() { Some(None) } else if e.iter().all(|x| *x) { Some(Some(true)) } else if e.iter().all(|x| !*x) { Some(Some(false)) } else { None };
        if let Some(want) = want {
            c.check(got == want, "touches", || format!("triangle_touches_boundary of the corners {t:?} is {got:?} instead of {want:?}"));
            c.count("touch-queries");
        }
    }
    c.nontrivial();
}

fn any_vec<S: Num, const D: usize>(c: &mut Case) -> [f64; D] {
    let s = if c.rng.chance(0.3) { c.rng.logf(1e-3, 1e3) } else { 1.0 };
    let int = c.rng.chance(0.2);
    std::array::from_fn(|_| S::mk(if int { c.rng.i64(-3, 3) as f64 } else { c.rng.f(-1.0, 1.0) * s }).f())
}
fn mkv<S: Num, const D: usize>(v: &[f64; D]) -> VecN<S, D> {
    VecN::<S, D>::from(v.map(S::mk))
}

pub fn c23_vectors<S: Num, V: Vector<S, D> + Transformable<D, S = S, Vec = V>, const D: usize>(c: &mut Case, mk: fn(&[f64; D]) -> V, nalgebra: bool) {
    let arr = |v: &V| -> [f64; D] {
        let a = [Vector::x(v).f(), Vector::y(v).f(), Vector::z(v).f(), Vector::w(v).f()];
        std::array::from_fn(|i| a[i])
    };
    let (a, b) = (any_vec::<S, D>(c), any_vec::<S, D>(c));
    c.log(format!("{} {D} {a:?} {b:?}", S::NAME));
    c.phase("vectors");
    let (x, y) = (mk(&a), mk(&b));
    let dt = |a: &[f64; D], b: &[f64; D]| (0..D).map(|i| a[i] * b[i]).sum::<f64>();
    let ab: [f64; D] = std::array::from_fn(|i| a[i] - b[i]);
    let la = dt(&a, &a).sqrt();
    let lb = dt(&b, &b).sqrt();
    let e = 8.0 * D as f64 * S::E;
    c.check((Vector::length(&x).f() - la).abs() <= e * la, "length", || format!("length {} instead of {la}", Vector::length(&x)));
    c.check((Vector::length_squared(&x).f() - la * la).abs() <= e * la * la, "length-squared", || "length_squared".into());
    c.check((V::distance(&x, &y).f() - dt(&ab, &ab).sqrt()).abs() <= e * (la + lb), "vector-distance", || "distance".into());
    c.check((Vector::distance_squared(&x, &y).f() - dt(&ab, &ab)).abs() <= e * (la + lb).powi(2), "vector-distance-squared", || "distance_squared".into());
    c.check((Vector::dot(&x, &y).f() - dt(&a, &b)).abs() <= e * la * lb, "dot", || format!("dot {} instead of {}", Vector::dot(&x, &y), dt(&a, &b)));
    let nn = Vector::normalize(&x);
    if la == 0.0 && !nalgebra {
        // undefined
    } else if la == 0.0 {
        c.check(nn == x, "normalize-zero", || format!("{nn:?}"));
    } else {
        let n = arr(&nn);
        let ok = (0..D).all(|i| (n[i] - a[i] / la).abs() <= e);
        c.check(ok, "normalize", || format!("{nn:?} of {x:?}"));
    }
    let cs: [f64; 4] = [0, 1, 2, 3].map(|i| if i < D { a[i] } else { 0.0 });
    c.check([Vector::x(&x).f(), Vector::y(&x).f(), Vector::z(&x).f(), Vector::w(&x).f()] == cs, "coordinates", || format!("x, y, z, w of {x:?}"));
    let f3 = V::from_xyz(S::mk(1.5), S::mk(2.5), S::mk(3.5));
    let f2 = V::from_xy(S::mk(1.5), S::mk(2.5));
    let f1 = V::from_x(S::mk(1.5));
    let (g1, g2, g3) = (arr(&f1), arr(&f2), arr(&f3));
    let ok = (0..D).all(|i| g3[i] == [1.5, 2.5, 3.5, 0.0, 0.0, 0.0][i] && g2[i] == [1.5, 2.5, 0.0, 0.0, 0.0, 0.0][i] && g1[i] == [1.5, 0.0, 0.0, 0.0, 0.0, 0.0][i]);
    c.check(ok, "from-coordinates", || format!("{f1:?} {f2:?} {f3:?}"));
    let sp = V::splat(S::mk(0.75));
    c.check((0..D).all(|i| arr(&sp)[i] == 0.75), "splat", || format!("{sp:?}"));
    c.check(<V as HasZero>::is_zero(&<V as Vector<S, D>>::zero()) && x.is_zero() == a.iter().all(|x| *x == 0.0), "zero", || "zero".into());
    let v: Vec2<S> = Vector::vec2(&x);
    c.check(v[0].f() == a[0] && v[1].f() == if D > 1 { a[1] } else { 0.0 }, "vec2", || format!("{v:?} of {x:?}"));
    let eps = c.rng.logf(1e-4, 2.0);
    let gap = (0..D).map(|i| (a[i] - b[i]).abs()).fold(0.0, f64::max);
    if (gap - eps).abs() > e * (la + lb + 1.0) {
        c.check(Vector::is_about(&x, &y, S::mk(eps)) == (gap < eps), "is-about", || format!("is_about({x:?}, {y:?}, {eps}) with the largest difference {gap}"));
    }
    if la > 1e-4 && lb > 1e-4 {
        let ang = Vector::angle_between(&x, y).f();
        let cross = if D == 2 { a[0] * b[1] - a[1] * b[0] } else {
            // |a x b| from the Gram determinant, computed by components
            let mut s = 0.0;
            for i in 0..D { for j in 0..i { s += (a[i] * b[j] - a[j] * b[i]).powi(2); } }
            s.sqrt()
        };
        let want = cross.atan2(dt(&a, &b));
        // acos is ill-conditioned at both ends
        let tol = if D == 2 { 64.0 * S::E } else { (8.0 * e).sqrt().min(16.0 * e / want.sin().abs().max(1e-300)).max(16.0 * e) };
        let d = (ang - want).abs();
        c.check(d.min((d - 2.0 * PI).abs()) <= tol, "angle-between", || format!("angle {ang} instead of {want}"));
        c.count("angles");
    }
    // the angle to the zero vector is zero
    let z = <V as Vector<S, D>>::zero();
    c.check(Vector::angle_between(&x, z).f() == 0.0 && Vector::angle_between(&z, x).f() == 0.0, "angle-zero", || format!("the angle between {x:?} and zero is {}", Vector::angle_between(&x, z)));
    let (p, q) = (&mut x.clone(), S::mk(*c.rng.pick(&[0.0, 1.0, 0.5, 0.3, -1.0, 2.0])));
    let mut l = *p;
    Transformable::lerp(&mut l, &y, q);
    let ok = (0..D).all(|i| (arr(&l)[i] - (a[i] + (b[i] - a[i]) * q.f())).abs() <= 4.0 * e * (la + lb));
    c.check(ok, "lerp", || format!("lerp {l:?}"));
    if q.f() == 0.0 {
        c.check(l == x, "lerp-start", || format!("lerp at 0 is {l:?} instead of {x:?}"));
    }
    c.count(&format!("dim:{D}"));
    c.nontrivial();
}

pub fn c23_space<S: Num, V: Vector3D<S = S>>(c: &mut Case) where V::Spherical: Vector<S, 3> {
    let mkv = |v: &[f64; 3]| V::new(S::mk(v[0]), S::mk(v[1]), S::mk(v[2]));
    let (a, b, d) = (any_vec::<S, 3>(c), any_vec::<S, 3>(c), any_vec::<S, 3>(c));
    c.log(format!("{} {a:?} {b:?} {d:?}", S::NAME));
    c.phase("space");
    let (x, y, z) = (mkv(&a), mkv(&b), mkv(&d));
    let (la, lb, ld) = (len(a), len(b), len(d));
    let g = |v: &V| -> P3 { [Vector::x(v).f(), Vector::y(v).f(), Vector::z(v).f()] };
    let e = 16.0 * S::E;
    c.check(len(sub(g(&Vector3D::cross(&x, &y)), cross(a, b))) <= e * la * lb, "cross", || format!("{:?}", Vector3D::cross(&x, &y)));
    let nn = g(&Vector3D::normal(&x, y, z));
    let want = cross(sub(a, b), sub(d, b));
    c.check(len(sub(nn, want)) <= e * (la + lb) * (ld + lb), "triangle-normal", || format!("{nn:?} instead of {want:?}"));
    let sw = [(Vector3D::xyz(&x), [0, 1, 2]), (Vector3D::xzy(&x), [0, 2, 1]), (Vector3D::yxz(&x), [1, 0, 2]), (Vector3D::yzx(&x), [1, 2, 0]), (Vector3D::zxy(&x), [2, 0, 1]), (Vector3D::zyx(&x), [2, 1, 0])];
    for (v, o) in sw {
        c.check(g(&v) == o.map(|i| a[i]), "swizzle-3d", || format!("{v:?} of {x:?} for {o:?}"));
    }
    c.check(x.to_array().map(|x| x.f()) == a && { let t = x.tuple(); [t.0.f(), t.1.f(), t.2.f()] == a }, "to-array", || "to_array or tuple".into());
    // spherical coordinates
    let sv = x.spherical();
    let s = [Spherical3d::r(&sv), Spherical3d::phi(&sv), Spherical3d::theta(&sv)];
    c.check((s[0].f() - la).abs() <= e * la, "radius", || format!("radius {} instead of {la}", s[0]));
    c.check(s[2].f() >= 0.0 && s[2].f() <= PI + 1e-6 && s[1].f().abs() <= PI + 1e-6, "spherical-range", || format!("{s:?}"));
    if la > 0.0 {
        let r = g(&<V::Spherical as Spherical3d>::cartesian(&sv));
        // acos near the poles
        c.check(len(sub(r, a)) <= la * (64.0 * S::E).sqrt(), "spherical", || format!("{a:?} became {r:?}"));
        let sin = a[0].hypot(a[1]) / la;
        if sin > 0.1 {
            c.check(len(sub(r, a)) <= la * 256.0 * S::E, "spherical-precise", || format!("{a:?} became {r:?}"));
            c.check((s[2].f() - sin.atan2(a[2] / la)).abs() <= 256.0 * S::E && (s[1].f() - a[1].atan2(a[0])).abs() <= 16.0 * S::E, "spherical-angles", || format!("{s:?} of {a:?}"));
        }
    }
    // spherical interpolation
    if la > 1e-3 && lb > 1e-3 {
        let (u, v) = (unit(a), unit(b));
        let (lu, lv) = (mkv(&u), mkv(&v));
        let ang = len(cross(u, v)).atan2(dot(u, v));
        if ang > 1e-2 && ang < 3.0 {
            let t = *c.rng.pick(&[0.0, 1.0, 0.5, 0.25, 0.9]);
            let r = g(&Vector3D::slerp(&lu, &lv, S::mk(t)));
            let w = addv(mulv(u, ((1.0 - t) * ang).sin() / ang.sin()), mulv(v, (t * ang).sin() / ang.sin()));
            let tol = 2048.0 * S::E / ang.sin().powi(2) ;
            c.check(len(sub(r, w)) <= tol, "slerp", || format!("slerp({u:?}, {v:?}, {t}) is {r:?} instead of {w:?}"));
            c.count("slerp");
        }
        // between almost equal directions the result stays close to both
        let tiny = c.rng.logf(1e-12, 1e-2);
        let v = unit(addv(u, mulv(unit(b), tiny)));
        let t = *c.rng.pick(&[0.0, 1.0, 0.5, 0.25, 0.9]);
        let r = g(&Vector3D::slerp(&lu, &mkv(&v), S::mk(t)));
        let (d, near) = (len(sub(u, v)), S::E.sqrt());
        c.check(len(sub(r, u)) <= d + 64.0 * near && len(sub(r, v)) <= d + 64.0 * near, "slerp-near", || format!("slerp({u:?}, {v:?}, {t}) is {r:?}"));
        c.count("slerp-near");
    }
    let m = { let [x, y, z] = [&a, &b, &d].map(|v| v.map(S::mk)); Scalar::det3(x[0], x[1], x[2], y[0], y[1], y[2], z[0], z[1], z[2]) }.f();
    let want = dot(cross(a, b), d);
    c.check((m - want).abs() <= 4.0 * e * la * lb * ld, "det3", || format!("det3 {m} instead of {want}"));
    // normals of closed polygons in space
    let q: Vec<P3> = (0..c.rng.int(3, 8)).map(|_| any_vec::<S, 3>(c)).collect();
    let k = q.len();
    let nn = g(&q.iter().map(|v| mkv(v)).collect::<Vec<_>>().into_iter().normal());
    let w: P3 = {
        let mut s = [0.0; 3];
        for i in 0..k {
            s = addv(s, cross(q[i], q[(i + 1) % k]));
        }
        mulv(s, 0.5)
    };
    let mag = q.iter().map(|v| len(*v)).fold(0.0, f64::max);
    c.check(len(sub(nn, w)) <= 64.0 * S::E * k as f64 * mag * mag, "newell", || format!("the normal of {q:?} is {nn:?} instead of {w:?}"));
    c.nontrivial();
}

/// The coordinates of vectors with four components.
pub fn c23_four<S: Num, V: Vector4D<S = S>>(c: &mut Case) {
    let a = any_vec::<S, 4>(c);
    c.log(format!("{} {a:?}", S::NAME));
    c.phase("four");
    let [p, q, r, s] = a.map(S::mk);
    let x = <V as Vector4D>::new(p, q, r, s);
    let g = |v: &V| [Vector::x(v).f(), Vector::y(v).f(), Vector::z(v).f(), Vector::w(v).f()];
    c.check(g(&x) == a, "new-4d", || format!("{x:?} of {a:?}"));
    c.check(Vector4D::to_array(&x).map(|x| x.f()) == a, "to-array-4d", || format!("{:?} of {a:?}", Vector4D::to_array(&x)));
    let t = Vector4D::tuple(&x);
    c.check([t.0.f(), t.1.f(), t.2.f(), t.3.f()] == a, "tuple-4d", || format!("{t:?} of {a:?}"));
    c.check(g(&Vector4D::xyzw(&x)) == a, "swizzle-4d", || format!("{:?} of {a:?}", Vector4D::xyzw(&x)));
    c.count("four");
    c.nontrivial();
}

/// The functions of scalars.
pub fn c23_scalars<S: Num>(c: &mut Case) {
    let mut draw = || S::mk(if c.rng.chance(0.2) { c.rng.i64(-3, 3) as f64 } else { c.rng.normal() * c.rng.logf(1e-3, 1e3) });
    let (x, y, z) = (draw(), draw(), draw());
    let (a, b, d) = (x.f(), y.f(), z.f());
    c.log(format!("{} {a} {b} {d}", S::NAME));
    c.phase("scalars");
    let e = 8.0 * S::E;
    let mut about = |c: &mut Case, what: &str, got: S, want: f64, tol: f64| {
        c.check((got.f() - want).abs() <= tol, what, || format!("{what} of {a}, {b}, {d} is {got} instead of {want}"));
    };
    let (s, k) = a.sin_cos();
    about(c, "sin", Scalar::sin(&x), s, e);
    about(c, "cos", Scalar::cos(&x), k, e);
    if k.abs() > 1e-2 && s.abs() > 1e-2 {
        about(c, "tan", Scalar::tan(&x), s / k, e * (1.0 + s / k * s / k));
        about(c, "cot", Scalar::cot(&x), k / s, 4.0 * e * (1.0 + k / s * k / s));
    }
    about(c, "atan2", Scalar::atan2(&x, y), a.atan2(b), e);
    let q = S::mk((a / 1000.0).clamp(-1.0, 1.0));
    about(c, "acos", Scalar::acos(q), q.f().acos(), e);
    about(c, "sqrt", Scalar::sqrt(Scalar::abs(x)), a.abs().sqrt(), e * a.abs().sqrt());
    about(c, "abs", Scalar::abs(x), a.abs(), 0.0);
    about(c, "max", Scalar::max(&x, y), a.max(b), 0.0);
    about(c, "min", Scalar::min(&x, y), a.min(b), 0.0);
    let (lo, hi) = if a < b { (x, y) } else { (y, x) };
    about(c, "clamp", Scalar::clamp(z, lo, hi), d.max(a.min(b)).min(a.max(b)), 0.0);
    let t = S::mk(*c.rng.pick(&[0.0, 1.0, 0.5, 0.3, -1.0, 2.0]));
    about(c, "scalar-lerp", Scalar::lerp(&x, y, t), a + (b - a) * t.f(), 4.0 * e * (a.abs() + b.abs()));
    let eps = c.rng.logf(1e-3, 1e3);
    if ((a - b).abs() - eps).abs() > e * (a.abs() + b.abs() + eps) {
        c.check(Scalar::is_about(&x, y, S::mk(eps)) == ((a - b).abs() < eps), "scalar-is-about", || format!("is_about({a}, {b}, {eps})"));
    }
    c.check(Scalar::to_f64(x) == a, "to-f64", || format!("{a} became {}", Scalar::to_f64(x)));
    let n = c.rng.below(1 << 24);
    c.check(<S as Scalar>::from_usize(n).f() == n as f64, "from-usize", || format!("{n} became {}", <S as Scalar>::from_usize(n)));
    if a != 0.0 {
        c.check(Scalar::is_positive(x) == (a > 0.0) && Scalar::is_negative(x) == (a < 0.0), "sign", || format!("the sign of {a}"));
    }
    c.check(Scalar::is_finite(x) && !Scalar::is_nan(x) && !Scalar::is_finite(S::INFINITY) && !Scalar::is_finite(S::NEG_INFINITY) && S::NEG_INFINITY < x && x < S::INFINITY && Scalar::is_nan(S::ZERO / S::ZERO) && !Scalar::is_finite(S::ZERO / S::ZERO), "finite", || format!("{a} and the infinities"));
    let consts = [S::ZERO, S::ONE, S::TWO, S::THREE, S::FOUR, S::FIVE, S::TEN, S::HALF].map(|x| x.f()) == [0.0, 1.0, 2.0, 3.0, 4.0, 5.0, 10.0, 0.5];
    c.check(consts && (S::PI.f() - PI).abs() <= PI * S::E && (S::PHI.f() - (1.0 + 5f64.sqrt()) / 2.0).abs() <= 2.0 * S::E && S::EPS.f() == S::E, "constants", || "a constant is wrong".into());
    let (o, r) = (OrderedFloats::new(x), OrderedFloats::new(y));
    c.check(Some(o.cmp(&r)) == a.partial_cmp(&b) && (o == r) == (a == b), "ordered", || format!("{a} and {b} are ordered as {:?}", o.cmp(&r)));
    c.count("scalars");
    c.nontrivial();
}

fn c23(c: &mut Case) {
    match c.rng.below(14) {
        12 => return if c.rng.chance(0.5) { c23_four::<f64, Vec4<f64>>(c) } else { c23_four::<f32, Vec4<f32>>(c) },
        13 => return if c.rng.chance(0.5) { c23_scalars::<f64>(c) } else { c23_scalars::<f32>(c) },
        0 | 1 => c23_points::<f64, Vec2<f64>>(c),
        2 => c23_points::<f32, Vec2<f32>>(c),
        3 | 4 => c23_segments::<f64, Vec2<f64>>(c),
        5 => c23_segments::<f32, Vec2<f32>>(c),
        6 => c23_vectors::<f64, VecN<f64, 2>, 2>(c, mkv, true),
        7 => c23_vectors::<f32, VecN<f32, 3>, 3>(c, mkv, true),
        8 => c23_vectors::<f64, VecN<f64, 4>, 4>(c, mkv, true),
        9 => c23_vectors::<f64, VecN<f64, 3>, 3>(c, mkv, true),
        10 => c23_space::<f64, Vec3<f64>>(c),
        _ => c23_space::<f32, Vec3<f32>>(c),
    }
}
fn c23_poly(c: &mut Case) {
    if c.rng.chance(0.7) {
        c23_polygons::<f64, Vec2<f64>, Polygon2d<f64>>(c)
    } else {
        c23_polygons::<f32, Vec2<f32>, Polygon2d<f32>>(c)
    }
}

// ---------------------------------------------------------------------------------------- C24

fn series<S: Num>(c: &mut Case) -> (&'static str, Vec<f64>) {
    let max = if c.thorough { 200_000 } else { 20_000 };
    let n = match c.rng.below(4) {
        0 => c.rng.below(4),
        1 => c.rng.int(4, 50),
        2 => c.rng.int(50, 2000),
        _ => c.rng.int(2000, max),
    };
    let r = &mut c.rng;
    let kind = r.below(7);
    let name = ["ones", "positive", "mixed", "magnitudes", "cancelling", "harmonic", "big-small"][kind];
    let mut v: Vec<f64> = (0..n)
        .map(|i| match kind {
            0 => 0.1,
            1 => r.f(0.0, 1.0),
            2 => r.f(-1.0, 1.0),
            3 => r.logf(1e-6, 1e6) * if r.chance(0.5) { 1.0 } else { -1.0 },
            4 => r.f(-1.0, 1.0) * 1e6,
            5 => 1.0 / (i as f64 + 1.0),
            _ => if r.chance(0.02) { r.logf(1e5, 1e9) * if r.chance(0.5) { 1.0 } else { -1.0 } } else { r.f(-1.0, 1.0) },
        })
        .map(|x| S::mk(x).f())
        .collect();
    if kind == 4 {
        let w: Vec<f64> = v.iter().map(|x| -x).collect();
        v.extend(w);
        v.push(S::mk(r.f(0.0, 1.0)).f());
        r.shuffle(&mut v);
    }
    (name, v)
}
/// The sum, correctly rounded up to one unit, and the sum of magnitudes.
fn exact_sum(v: &[f64]) -> (f64, f64) {
    let mut e = Ex::default();
    for x in v {
        e.grow(*x);
    }
    (e.est(), v.iter().map(|x| x.abs()).sum())
}

fn c24_scalars<S: Num>(c: &mut Case) {
    let (kind, v) = series::<S>(c);
    let n = v.len() as f64;
    c.log(format!("{} {kind} {} terms", S::NAME, v.len()));
    c.phase("scalars");
    let (s, m) = exact_sum(&v);
    let l: Vec<S> = v.iter().map(|x| S::mk(*x)).collect();
    // Neumaier: one rounding of the result, everything else is of second order
    let tol = 2.0 * S::E * s.abs() + 2.0 * n * S::E * S::E * m + 1e-300;
    let got = ScalarIteratorExt::stable_sum(l.iter().copied()).f();
    c.check((got - s).abs() <= tol, "sum", || format!("the stable sum of {} {kind} terms is {got} instead of {s} (tolerance {tol})", v.len()));
    let (g2, k) = neumaier_summation(l.iter().copied());
    c.check(g2.f() == got && k == v.len(), "neumaier", || format!("neumaier_summation gives {g2:?} for {k} terms"));
    if !v.is_empty() {
        let mean = ScalarIteratorExt::stable_mean(l.iter().copied()).f();
        c.check((mean - s / n).abs() <= (tol + 2.0 * S::E * s.abs()) / n, "mean", || format!("mean {mean} instead of {}", s / n));
    } else {
        c.check(got == 0.0, "empty", || format!("the empty sum is {got}"));
    }
    let mut r = l.clone();
    c.rng.shuffle(&mut r);
    let g3 = ScalarIteratorExt::stable_sum(r.iter().copied()).f();
    c.check((g3 - s).abs() <= tol, "order", || format!("in another order the sum is {g3} instead of {s}"));
    // Kahan: relative to the magnitudes
    let (g4, k4) = kahan_summation(l.iter().copied());
    let ktol = (4.0 * S::E + 4.0 * n * S::E * S::E) * m + 1e-300;
    c.check((g4.f() - s).abs() <= ktol && k4 == v.len(), "kahan", || format!("kahan_summation gives {g4:?} instead of {s} for {k4} terms"));
    c.max("terms", v.len() as u64);
    c.count(&format!("series:{kind}"));
    if v.len() > 1000 {
        c.count("long-series");
        // would naive summation have failed?
        let naive = l.iter().fold(S::ZERO, |a, b| a + *b).f();
        if (naive - s).abs() > tol {
            c.count("naive-sum-is-worse");
        }
    }
    c.nontrivial();
}

fn c24_vectors<S: Num, const D: usize>(c: &mut Case) {
    let cols: Vec<Vec<f64>> = {
        let (_, first) = series::<S>(c);
        let n = first.len();
        let mut r = vec![first];
        for _ in 1..D {
            let (_, mut s) = series::<S>(c);
            s.resize(n, S::mk(0.3).f());
            r.push(s);
        }
        r
    };
    let n = cols[0].len();
    c.log(format!("{} {D} {n} vectors", S::NAME));
    c.phase("vectors");
    let l: Vec<VecN<S, D>> = (0..n).map(|i| VecN::<S, D>::from(std::array::from_fn(|k| S::mk(cols[k][i])))).collect();
    let got = VectorIteratorExt::<S, D, VecN<S, D>>::stable_sum(l.iter().copied());
    let mean = if n > 0 { Some(VectorIteratorExt::<S, D, VecN<S, D>>::stable_mean(l.iter().copied())) } else { None };
    for k in 0..D {
        let (s, m) = exact_sum(&cols[k]);
        let tol = (4.0 * S::E + 4.0 * n as f64 * S::E * S::E) * m + 1e-300;
        c.check((got[k].f() - s).abs() <= tol, "vector-sum", || format!("coordinate {k} of the sum of {n} vectors is {} instead of {s}", got[k]));
        if let Some(x) = &mean {
            c.check((x[k].f() - s / n as f64).abs() <= tol / n as f64 + 2.0 * S::E * (s / n as f64).abs(), "vector-mean", || format!("coordinate {k} of the mean of {n} vectors is {} instead of {}", x[k], s / n as f64));
        }
    }
    c.max("vectors", n as u64);
    c.count("vector-series");
    c.nontrivial();
}

fn c24_centroids(c: &mut Case) {
    let m = scene(c);
    let (s, _) = monitor(c, &m, "scene");
    let p = pos(&m);
    let all: Vec<P3> = p.values().copied().collect();
    let mag = all.iter().flatten().fold(0.0f64, |a, b| a.max(b.abs()));
    let tol = 1e-14 * mag;
    let g = |v: Vec3<f64>| -> P3 { [v.x, v.y, v.z] };
    c.phase("centroids");
    let r = g(MeshPosition::<3, T3>::centroid(&m));
    c.check(len(sub(r, mean(&all))) <= tol, "mesh-centroid", || format!("{r:?} instead of {:?}", mean(&all)));
    for f in MeshBasics::faces(&m) {
        let q: Vec<P3> = s.face_verts(f.id()).iter().map(|v| p[v]).collect();
        let r = g(Face::centroid::<3>(f, &m));
        c.check(len(sub(r, mean(&q))) <= tol, "face-centroid", || format!("face {}: {r:?} instead of {:?}", f.id(), mean(&q)));
        c.count("faces");
    }
    for e in MeshBasics::edges(&m) {
        let id = ix(EdgeBasics::id(e));
        let (a, b) = (p[&s.e[&id].origin], p[&s.target(id)]);
        let r = g(EdgeBasics::centroid::<3>(e, &m));
        c.check(len(sub(r, mulv(addv(a, b), 0.5))) <= tol, "edge-centroid", || format!("half-edge {id}: {r:?}"));
        c.count("edges");
    }
    c.nontrivial();
}

fn c24(c: &mut Case) {
    match c.rng.below(5) {
        0 | 1 => c24_scalars::<f64>(c),
        2 => c24_scalars::<f32>(c),
        3 => c24_vectors::<f64, 3>(c),
        _ => c24_vectors::<f32, 2>(c),
    }
}

pub fn props() -> Vec<Property> {
    vec![
        Property {
            id: "C20",
            workloads: vec![w("faces", 120000, 960000, c20_faces), w("smooth", 36000, 300000, c20_smooth)],
            floors: vec![("vertices-judged", 50000), ("boundary-vertices", 2000), ("without-faces", 200), ("convex", 2000), ("kind:spiral", 200), ("kind:collinear", 200)],
            rule: "A case builds one face from a random simple polygon in a random plane (both sides) and judges its normal and projection, or a scene of solids, polygons and wires whose smooth normals are generated and judged vertex by vertex. Non-trivial: normals were judged.",
            assumptions: vec!["faces are planar and simple; vertices whose face normals cancel are only required to be finite"],
        },
        Property {
            id: "C23",
            workloads: vec![w("points", 1500000, 30000000, c23), w("polygons", 80000, 1600000, c23_poly), w("faces", 80000, 1600000, c23_faces)],
            floors: vec![("decided", 20000), ("grid-points", 20000), ("grid-segments", 2000), ("grid-polygons", 2000), ("inside", 1000), ("crossing", 5000), ("apart", 5000), ("parallel", 500), ("angles", 10000), ("point-inside", 5000), ("point-outside", 5000), ("diagonal-valid", 20000), ("diagonal-invalid", 20000), ("bent", 500), ("self-intersecting", 500), ("face-convex", 500), ("face-concave", 500), ("slerp", 1000), ("slerp-near", 1000), ("four", 5000), ("scalars", 10000)],
            rule: "A case draws points (grid, nearly collinear, cocircular, scaled over twelve orders of magnitude), segments, vectors, polygons or faces in double or single precision and compares every predicate and measure with exact or higher precision arithmetic. Non-trivial: a predicate was compared.",
            assumptions: vec!["answers within the rounding error of the documented formula are not judged"],
        },
        Property {
            id: "C24",
            workloads: vec![w("sums", 32000, 256000, c24), w("centroids", 24000, 192000, c24_centroids)],
            floors: vec![("long-series", 500), ("naive-sum-is-worse", 200), ("vector-series", 500), ("series:cancelling", 100), ("faces", 10000), ("edges", 50000)],
            rule: "A case sums a series of up to 200000 scalars or vectors in single or double precision and compares it with the exact sum, or compares the centroids of all edges and faces of a scene with the mean of their vertices. Non-trivial: a sum was compared.",
            assumptions: vec!["no overflow"],
        },
    ]
}
