//! C16 triangulation of polygons, C17 of meshes, C18 minimum weight, C19 Delaunay.

use crate::gen;
use crate::geo::*;
use crate::prims::{pos, solid, vp, SOLIDS};
use crate::snap::*;
use crate::types::*;
use procedural_modelling::extensions::nalgebra::*;
use procedural_modelling::operations::*;
use procedural_modelling::prelude::*;
use procedural_modelling::primitives::*;
use std::collections::BTreeMap;
use vmon::{w, Case, Property};

use TriangulationAlgorithm as A;

type M3 = Mesh3d64;
type T3 = MeshType3d64PNU;

/// What the monitor decided about a list of triangles over the corners 0..n of a polygon.
pub struct Verdict {
    pub bad: Option<(&'static str, String)>,
    pub reversed: bool,
}

/// Judges whether the triangles partition the counter-clockwise simple polygon.
pub fn partition(p: &[P2], tris: &[[usize; 3]], tol: f64) -> Verdict {
    let n = p.len();
    let area = |t: &[usize; 3]| orient_ex(p[t[0]], p[t[1]], p[t[2]]).est();
    // a consistently reversed result is reported separately
    let reversed = !tris.is_empty() && tris.iter().all(|t| area(t) <= tol) && tris.iter().map(area).sum::<f64>() < 0.0;
    let tris: Vec<[usize; 3]> = tris.iter().map(|t| if reversed { [t[0], t[2], t[1]] } else { *t }).collect();
    let mut v = Verdict { bad: None, reversed };
    if tris.len() != n - 2 {
        v.bad = Some(("count", format!("{} triangles for {n} corners", tris.len())));
        return v;
    }
    let mut edges: BTreeMap<(usize, usize), usize> = BTreeMap::new();
    for t in &tris {
        if t[0] == t[1] || t[1] == t[2] || t[2] == t[0] {
            v.bad = Some(("repeated-corner", format!("triangle {t:?}")));
            return v;
        }
        for k in 0..3 {
            *edges.entry((t[k], t[(k + 1) % 3])).or_insert(0) += 1;
        }
    }
    for t in &tris {
        if area(t) < -tol {
            v.bad = Some(("negative", format!("triangle {t:?} has twice the area {}", area(t))));
            return v;
        }
    }
    for i in 0..n {
        let j = (i + 1) % n;
        if edges.remove(&(i, j)) != Some(1) {
            v.bad = Some(("outline", format!("the outline edge {i}->{j} is not used exactly once")));
            return v;
        }
    }
    for ((a, b), k) in &edges {
        if *k != 1 || edges.get(&(*b, *a)) != Some(&1) {
            v.bad = Some(("diagonal", format!("the diagonal {a}->{b} is used {k} times, its reverse {:?} times", edges.get(&(*b, *a)))));
            return v;
        }
    }
    let total: f64 = tris.iter().map(area).sum();
    let want = area2(p);
    if (total - want).abs() > tol * n as f64 {
        v.bad = Some(("area", format!("total {total}, polygon {want}")));
    }
    v
}

/// A mesh with the polygon as its only face, which traverses it in the given order.
/// Corner k is the vertex n - 1 - k.
pub fn face_mesh(p: &[P2], fr: &gen::Frame) -> M3 {
    M3::polygon(p.iter().rev().map(|q| vp(fr.at(*q))))
}
pub fn flat() -> gen::Frame {
    gen::Frame {
        o: [0.0; 3],
        x: [1.0, 0.0, 0.0],
        y: [0.0, 1.0, 0.0],
        z: [0.0, 0.0, 1.0],
    }
}
pub fn area_tol(p: &[P2], extra: f64) -> f64 {
    1e-12 * magnitude(p).max(diameter(p)).max(extra) * diameter(p)
}
/// Every corner turns left by more than rounding.
pub fn convex_with_margin(p: &[P2]) -> bool {
    let n = p.len();
    (0..n).all(|i| {
        let (a, b, c) = (p[i], p[(i + 1) % n], p[(i + 2) % n]);
        orient_ex(a, b, c).est() > 1e-9 * d2(a, b) * d2(b, c)
    })
}

/// The ways to triangulate a single face.
#[derive(Clone, Copy, Debug, PartialEq)]
pub(crate) enum Way {
    Algo(A),
    EarRandom,
    Ear,
    Delaunay,
    SweepLinear,
    SweepDyn,
    SweepDel,
    MinWeight,
    Small,
    Fan,
}
pub(crate) const WAYS: &[Way] = &[
    Way::Algo(A::EarClipping),
    Way::Algo(A::Sweep),
    Way::Algo(A::SweepDynamic),
    Way::Algo(A::SweepDelaunay),
    Way::Algo(A::Delaunay),
    Way::Algo(A::MinWeight),
    Way::Algo(A::Auto),
    Way::Algo(A::Fan),
    Way::Ear,
    Way::EarRandom,
    Way::Delaunay,
    Way::SweepLinear,
    Way::SweepDyn,
    Way::SweepDel,
    Way::MinWeight,
    Way::Small,
    Way::Fan,
];
impl Way {
    pub(crate) fn applies(self, p: &[P2]) -> bool {
        let n = p.len();
        match self {
            // small faces are dispatched to the special cases
            Way::Algo(A::Fan) => n <= 4 || convex_with_margin(p),
            Way::Fan => convex_with_margin(p),
            Way::MinWeight => n >= 4,
            Way::Small => n <= 4,
            _ => true,
        }
    }
    fn may_reverse(self, n: usize) -> bool {
        matches!(self, Way::Ear | Way::EarRandom) || (self == Way::Algo(A::EarClipping) && n >= 5)
    }
    fn name(self) -> String {
        match self {
            Way::Algo(a) => format!("{a:?}"),
            w => format!("direct-{w:?}"),
        }
    }
    /// Runs the library.
    pub(crate) fn run(self, c: &mut Case, m: &M3, f: usize, buf: &mut Vec<usize>) {
        c.phase(self.name());
        let f = m.face(f);
        let mut tri = Triangulation::new(buf);
        let mut meta = Default::default();
        match self {
            Way::Algo(a) => triangulate_face::<T3>(f, m, &mut tri, a, &mut meta),
            Way::Ear => ear_clipping::<T3>(f, m, &mut tri, false),
            Way::EarRandom => ear_clipping::<T3>(f, m, &mut tri, true),
            Way::Delaunay => delaunay_triangulation::<T3>(f, m, &mut tri),
            Way::SweepLinear => sweep_line::<T3, LinearMonoTriangulator<usize, Vec2<f64>>>(f, m, &mut tri, &mut meta),
            Way::SweepDyn => sweep_line::<T3, DynamicMonoTriangulator<usize, Vec2<f64>, Polygon2d<f64>>>(f, m, &mut tri, &mut meta),
            Way::SweepDel => sweep_line::<T3, DelaunayMonoTriangulator<usize, Vec2<f64>>>(f, m, &mut tri, &mut meta),
            Way::MinWeight => minweight_dynamic::<T3>(f, m, &mut tri),
            Way::Small => {
                let done = try_min_weight_small::<T3>(f, m, &mut tri);
                c.check(done, "small-declined", || "try_min_weight_small declined a face with at most four corners".into());
            }
            Way::Fan => fan_triangulation::<T3>(f, m, &mut tri),
        }
        c.phase("judge");
    }
}

fn corners(n: usize, tris: &[usize]) -> Option<Vec<[usize; 3]>> {
    if tris.len() % 3 != 0 || tris.iter().any(|i| *i >= n) {
        return None;
    }
    Some(tris.chunks(3).map(|t| [n - 1 - t[0], n - 1 - t[1], n - 1 - t[2]]).collect())
}

struct Face {
    kind: &'static str,
    p: Vec<P2>,
    m: M3,
    tol: f64,
    /// magnitude of the coordinates in space
    mag: f64,
}
fn random_face(c: &mut Case, max: usize) -> Face {
    c.phase("setup");
    let max = c.rng.rare(max, 240);
    let g = gen::polygon(&mut c.rng, max);
    let p = g.p;
    let d = diameter(&p);
    let fr = if c.rng.chance(0.5) { flat() } else { gen::Frame::random(&mut c.rng, d) };
    let m = face_mesh(&p, &fr);
    let mag = pos(&m).values().flatten().fold(0.0f64, |a, b| a.max(b.abs()));
    c.log(format!("{} {:?} in {:?}", g.kind, p, (fr.o, fr.x, fr.y)));
    c.count(&format!("kind:{}", g.kind));
    c.max("corners", p.len() as u64);
    Face {
        kind: g.kind,
        tol: area_tol(&p, mag),
        p,
        m,
        mag,
    }
}
fn max_corners(c: &mut Case) -> usize {
    *c.rng.pick(if c.thorough { &[12, 40, 200][..] } else { &[10, 25, 90][..] })
}

/// Runs and judges one way; returns the triangles in counter-clockwise order.
fn judged(c: &mut Case, f: &Face, way: Way, buf: &mut Vec<usize>) -> Vec<[usize; 3]> {
    let name = way.name();
    let old = buf.clone();
    way.run(c, &f.m, 0, buf);
    c.check(buf.len() >= old.len() && buf[..old.len()] == old[..], &format!("buffer:{name}"), || {
        format!("{name} changed the {} indices that were in the buffer", old.len())
    });
    let n = f.p.len();
    let Some(t) = corners(n, &buf[old.len()..]) else {
        c.fail(&format!("index:{name}"), format!("{name} wrote {:?} for {n} corners", &buf[old.len()..]));
        return vec![];
    };
    let v = partition(&f.p, &t, f.tol);
    if let Some((sig, msg)) = v.bad {
        c.fail(&format!("{sig}:{name}"), format!("{name}: {msg}; triangles {t:?}"));
    } else {
        c.check(true, "", String::new);
    }
    if v.reversed {
        let sig = if way.may_reverse(n) {
            "winding-reversed:EarClipping:n>=5".to_string()
        } else {
            format!("winding-reversed:{name}")
        };
        c.fail(&sig, format!("{name}: all triangles are clockwise although the face is counter-clockwise: {t:?}"));
    }
    c.count(&format!("way:{name}"));
    c.add("triangles", t.len() as u64);
    t.iter().map(|t| if v.reversed { [t[0], t[2], t[1]] } else { *t }).collect()
}

fn c16(c: &mut Case) {
    let max = max_corners(c);
    let f = random_face(c, max);
    let n = f.p.len();
    for way in WAYS {
        if !way.applies(&f.p) || (matches!(way, Way::MinWeight | Way::Algo(A::MinWeight | A::SweepDynamic) | Way::SweepDyn) && n > 60 && !c.thorough && c.rng.chance(0.8)) {
            continue;
        }
        // something is in the buffer already
        let mut buf: Vec<usize> = (0..3 * c.rng.below(4)).map(|i| [usize::MAX, 0, 3, 77777][(i * 7 + n) % 4]).collect();
        let start = buf.len();
        let t = judged(c, &f, *way, &mut buf);
        if *way != Way::EarRandom {
            let mut again = vec![];
            way.run(c, &f.m, 0, &mut again);
            c.check(again[..] == buf[start..], &format!("deterministic:{}", way.name()), || {
                format!("{}: the second run gave {again:?} instead of {:?}", way.name(), &buf[start..])
            });
        }
        // what was seen: which diagonals
        let mut h = n as u64;
        for t in &t {
            h = vmon::mix(h, (t[0] * 1000003 + t[1] * 1009 + t[2]) as u64);
        }
        c.state(h);
    }
    c.sample(|| format!("{} with {n} corners: {:?}", f.kind, f.p));
    c.nontrivial();
}

/// The weight of the best triangulation over diagonals that are valid with some margin.
fn best_weight(p: &[P2]) -> f64 {
    let n = p.len();
    let eps = 1e-9 * diameter(p).max(magnitude(p));
    let mut ok = vec![vec![false; n]; n];
    for i in 0..n {
        for j in i + 1..n {
            if j == i + 1 || (i == 0 && j == n - 1) {
                ok[i][j] = true;
                continue;
            }
            let (a, b) = (p[i], p[j]);
            let far = (0..n).all(|k| k == i || k == j || seg_dist(p[k], a, b) > eps);
            let (h, g) = (p[(i + n - 1) % n], p[i + 1]);
            let cone = if orient(h, a, g) >= 0 {
                orient(a, b, h) > 0 && orient(a, b, g) < 0
            } else {
                orient(a, b, h) > 0 || orient(a, b, g) < 0
            };
            ok[i][j] = far && cone && (0..n).all(|k| !cross_properly(a, b, p[k], p[(k + 1) % n]));
        }
    }
    let l = |i: usize, j: usize| if j == i + 1 || (i == 0 && j == n - 1) { 0.0 } else { d2(p[i], p[j]) };
    let mut w = vec![vec![0.0f64; n]; n];
    for len in 2..n {
        for i in 0..n - len {
            let j = i + len;
            let mut b = f64::INFINITY;
            if ok[i][j] {
                for k in i + 1..j {
                    if ok[i][k] && ok[k][j] && orient(p[i], p[k], p[j]) > 0 {
                        b = b.min(w[i][k] + w[k][j] + l(i, k) + l(k, j));
                    }
                }
            }
            w[i][j] = b;
        }
    }
    w[0][n - 1]
}
fn weight(p: &[P2], t: &[[usize; 3]]) -> f64 {
    let n = p.len();
    let mut d = 0.0;
    for t in t {
        for k in 0..3 {
            let (a, b) = (t[k], t[(k + 1) % 3]);
            if a < b && b != a + 1 && !(a == 0 && b == n - 1) {
                d += d2(p[a], p[b]);
            }
        }
    }
    d
}

fn c18(c: &mut Case) {
    let max = if c.thorough { *c.rng.pick(&[6, 20, 60, 110]) } else { *c.rng.pick(&[4, 6, 12, 30, 50]) };
    let f = random_face(c, max);
    let n = f.p.len();
    let best = best_weight(&f.p);
    c.count(if best.is_finite() { "optimum-known" } else { "only-degenerate" });
    let tol = 1e-11 * n as f64 * diameter(&f.p).max(f.mag);
    let ways: &[Way] = if n >= 5 {
        &[Way::Algo(A::MinWeight), Way::MinWeight]
    } else if n == 4 {
        &[Way::Algo(A::MinWeight), Way::MinWeight, Way::Small]
    } else {
        &[Way::Algo(A::MinWeight), Way::Small]
    };
    let mut mine = f64::INFINITY;
    for way in ways {
        let t = judged(c, &f, *way, &mut vec![]);
        mine = weight(&f.p, &t);
        c.check(mine <= best + tol, &format!("weight:{}", way.name()), || {
            format!("{}: the diagonals have length {mine}, but there is a triangulation with {best}; triangles {t:?}", way.name())
        });
        c.state(vmon::mix(n as u64, mine.to_bits()));
    }
    // no other algorithm finds a lighter one (except for diagonals through other corners)
    let eps = 1e-9 * diameter(&f.p).max(f.mag);
    for way in [
        Way::Algo(A::Delaunay),
        Way::Algo(A::Sweep),
        Way::Algo(A::SweepDynamic),
        Way::Algo(A::SweepDelaunay),
        Way::Algo(A::EarClipping),
    ] {
        let mut buf = vec![];
        way.run(c, &f.m, 0, &mut buf);
        let Some(t) = corners(n, &buf) else { continue };
        let t: Vec<[usize; 3]> = if partition(&f.p, &t, f.tol).reversed { t.iter().map(|t| [t[0], t[2], t[1]]).collect() } else { t };
        let v = partition(&f.p, &t, f.tol);
        let clean = v.bad.is_none()
            && t.iter().all(|t| {
                (0..3).all(|k| {
                    let (a, b) = (t[k], t[(k + 1) % 3]);
                    (0..n).all(|i| i == a || i == b || b == (a + 1) % n || seg_dist(f.p[i], f.p[a], f.p[b]) > eps)
                })
            });
        if clean {
            let other = weight(&f.p, &t);
            c.check(mine <= other + tol, &format!("lighter:{}", way.name()), || {
                format!("{} finds {other}, the minimum weight algorithm {mine}", way.name())
            });
            c.count("compared-with-others");
            if other > mine + tol {
                c.count("strictly-better");
            }
        }
    }
    c.count(&format!("n:{}", n.min(6)));
    c.nontrivial();
}

fn circles(c: &mut Case, f: &Face, t: &[[usize; 3]], name: &str, event: &str) {
    let mut opp: BTreeMap<(usize, usize), usize> = BTreeMap::new();
    for t in t {
        for k in 0..3 {
            opp.insert((t[k], t[(k + 1) % 3]), t[(k + 2) % 3]);
        }
    }
    for (&(a, b), &x) in &opp {
        let Some(&y) = opp.get(&(b, a)) else { continue };
        let (pa, pb, px, py) = (f.p[a], f.p[b], f.p[x], f.p[y]);
        let near = [pa, pb, px].iter().map(|q| d2(*q, py)).fold(f64::MAX, f64::min);
        let tol = 1e-12 + 1e-14 * f.mag.max(diameter(&f.p)) / near;
        let g = incircle_margin(pa, pb, px, py);
        c.check(g <= tol, &format!("circle:{name}"), || {
            format!("{name}: corner {y} {py:?} is inside the circle through {a} {pa:?}, {b} {pb:?}, {x} {px:?} by {g} (tolerance {tol}); triangles {t:?}")
        });
        c.count(event);
        if g.abs() <= tol {
            c.count("cocircular");
        }
    }
}

fn c19(c: &mut Case) {
    let max = max_corners(c);
    let f = random_face(c, max);
    let n = f.p.len();
    for way in [Way::Algo(A::Delaunay), Way::Algo(A::Auto), Way::Delaunay] {
        if n <= 4 && way != Way::Delaunay {
            continue;
        }
        let name = way.name();
        let t = judged(c, &f, way, &mut vec![]);
        circles(c, &f, &t, &name, "diagonals");
        let mut h = n as u64;
        for t in &t {
            h = vmon::mix(h, (t[0] * 1000003 + t[1] * 1009 + t[2]) as u64);
        }
        c.state(h);
    }
    c.nontrivial();
}

/// The Delaunay triangulator of the sweep: a monotone polygon is a single piece.
fn c19_monotone(c: &mut Case) {
    c.phase("setup");
    let max = max_corners(c);
    let n = c.rng.int(4, max);
    let mut p: Vec<P2> = gen::monotone(&mut c.rng, n).iter().map(|q| [-q[1], q[0]]).collect();
    let s = c.rng.logf(1e-3, 1e3);
    for q in &mut p {
        *q = [q[0] * s, q[1] * s];
    }
    let mut ys: Vec<f64> = p.iter().map(|q| q[1]).collect();
    ys.sort_by(f64::total_cmp);
    if !is_simple(&p) || area2(&p) <= 0.0 || ys.windows(2).any(|w| w[1] - w[0] < 1e-6 * s) || feature_size(&p) < 1e-5 * diameter(&p) {
        c.count("skipped");
        return;
    }
    let m = face_mesh(&p, &flat());
    let f = Face { kind: "y-monotone", tol: area_tol(&p, 0.0), mag: magnitude(&p), p, m };
    c.log(format!("y-monotone {:?}", f.p));
    let n = f.p.len();
    for way in [Way::SweepDel, Way::Algo(A::SweepDelaunay)] {
        if n <= 4 && way != Way::SweepDel {
            continue;
        }
        let t = judged(c, &f, way, &mut vec![]);
        circles(c, &f, &t, &way.name(), "monotone-diagonals");
    }
    c.nontrivial();
}

/// A mesh of several components with planar faces, holes, wires and isolated vertices.
/// Every vertex has its id as uv and some normal.
pub fn scene(c: &mut Case) -> M3 {
    c.phase("setup");
    let payloads = |v: &[P3]| v.iter().map(|p| vp(*p)).collect::<Vec<_>>();
    let mut m = M3::default();
    if c.rng.chance(0.35) {
        let name = *c.rng.pick(SOLIDS);
        let s = solid::<T3>(c, name);
        c.phase("setup");
        m = s.mesh;
        let fr = gen::Frame::random(&mut c.rng, s.size);
        if c.rng.chance(0.6) && s.planar {
            for v in MeshBasics::vertices_mut(&mut m) {
                let p = *v.payload().pos();
                let q = fr.at3([p.x, p.y, p.z]);
                VertexBasics::payload_mut(v).set_pos(Vec3::new(q[0], q[1], q[2]));
            }
        }
        if !s.planar {
            m = M3::default();
        }
    }
    for _ in 0..c.rng.int(if m.num_vertices() == 0 { 1 } else { 0 }, 4) {
        let g = { let k = if c.thorough { 40 } else { 16 }; let k = c.rng.rare(k, 160); gen::polygon(&mut c.rng, k) };
        let d = diameter(&g.p);
        let fr = gen::Frame::random(&mut c.rng, d);
        let n = g.p.len();
        let base: Vec<P3> = g.p.iter().map(|q| fr.at(*q)).collect();
        let up: Vec<P3> = base.iter().map(|p| addv(*p, mulv(fr.z, d))).collect();
        c.log(format!("component {} {:?} in {:?}", g.kind, g.p, fr));
        match c.rng.below(6) {
            0 | 1 => {
                Make2dShape::<T3>::insert_polygon(&mut m, payloads(&base));
            }
            2 => {
                Make2dShape::<T3>::insert_dihedron(&mut m, payloads(&base));
            }
            3 => {
                m.insert_prism(payloads(&base), d);
            }
            4 => {
                m.insert_frustum(payloads(&base), payloads(&up), false);
            }
            _ => {
                // two faces with one common side
                let e = Make2dShape::<T3>::insert_polygon(&mut m, payloads(&base));
                let _ = n;
                m.extrude(e, NdAffine::new(nalgebra::SMatrix::<f64, 3, 3>::identity(), Vec3::new(fr.z[0] * d, fr.z[1] * d, fr.z[2] * d)));
            }
        }
    }
    // the rings of some solids over concave bases aren't simple
    let sn = snap(&m).unwrap_or_else(|(sig, msg)| {
        c.fail(&format!("wf:{sig}:setup"), msg);
        unreachable!()
    });
    let at = pos(&m);
    for f in sn.f.keys() {
        let q: Vec<P3> = sn.face_verts(*f).iter().map(|v| at[v]).collect();
        if !good_face(&q) {
            c.count("bad-faces-removed");
            m.remove_face(*f);
        }
    }
    // holes, some closed again so that slots are reused
    let holes = *c.rng.pick(&[0.0, 0.0, 0.1, 0.4]);
    let ids: Vec<usize> = MeshBasics::faces(&m).map(|f| f.id()).collect();
    let mut edges = vec![];
    for f in ids {
        if c.rng.chance(holes) {
            edges.push(m.face(f).edge_id());
            m.remove_face(f);
            c.count("holes");
        }
    }
    c.rng.shuffle(&mut edges);
    for e in edges {
        if c.rng.chance(0.4) {
            m.close_hole_default(e);
            c.count("reused");
        }
    }
    let size = pos(&m).values().flatten().fold(0.0f64, |a, b| a.max(b.abs()));
    let mut rnd = |c: &mut Case| vp([c.rng.f(-1.0, 1.0) * size, c.rng.f(-1.0, 1.0) * size, c.rng.f(-1.0, 1.0) * size]);
    for _ in 0..c.rng.below(3) {
        let p = rnd(c);
        m.add_vertex(p);
        c.count("isolated");
    }
    if c.rng.chance(0.2) {
        let k = c.rng.int(2, 4);
        let p: Vec<_> = (0..k).map(|_| rnd(c)).collect();
        m.insert_path(p);
        c.count("wires");
    }
    let mut k = 0.0;
    for v in MeshBasics::vertices_mut(&mut m) {
        let id = ix(v.id()) as f64;
        let p = VertexBasics::payload_mut(v);
        p.set_uv(Vec2::new(id, 0.5));
        p.set_normal(Vec3::new(0.0, 0.25, id));
        k += 1.0;
    }
    let _ = k;
    m
}

/// Planar up to rounding and simple with some margin.
pub fn good_face(q: &[P3]) -> bool {
    if len(newell(q)) == 0.0 {
        return false;
    }
    let z = unit(newell(q));
    let (p, _) = in_plane(q);
    let d = diameter(&p);
    let mag = q.iter().flatten().fold(d, |a, b| a.max(b.abs()));
    q.iter().all(|x| dot(sub(*x, q[0]), z).abs() <= 1e-12 * mag) && is_simple(&p) && feature_size(&p) > 1e-6 * d
}
/// The corners of a face in the coordinates of its plane, with the tolerance for areas.
pub fn in_plane(q: &[P3]) -> (Vec<P2>, f64) {
    let z = unit(newell(q));
    let h = if z[0].abs() < 0.6 { [1.0, 0.0, 0.0] } else { [0.0, 1.0, 0.0] };
    let x = unit(cross(h, z));
    let fr = gen::Frame { o: q[0], x, y: cross(z, x), z };
    let p: Vec<P2> = q.iter().map(|p| fr.to2(*p)).collect();
    let mag = q.iter().flatten().fold(0.0f64, |a, b| a.max(b.abs()));
    let tol = area_tol(&p, mag);
    (p, tol)
}

fn c17(c: &mut Case) {
    let m = scene(c);
    let (s, _) = monitor(c, &m, "scene");
    let p = pos(&m);
    let algo = *c.rng.pick(&[A::EarClipping, A::Sweep, A::SweepDynamic, A::SweepDelaunay, A::Delaunay, A::MinWeight, A::Auto, A::Fan]);
    // corners of every face in the order of the face
    let faces: Vec<(usize, Vec<usize>)> = MeshBasics::faces(&m).map(|f| (f.id(), s.face_verts(f.id()))).collect();
    c.check(faces.len() == s.f.len(), "faces", || format!("{} faces are iterated, {} exist", faces.len(), s.f.len()));
    let planes: Vec<(Vec<P2>, f64)> = faces.iter().map(|(_, v)| in_plane(&v.iter().map(|v| p[v]).collect::<Vec<_>>())).collect();
    if algo == A::Fan && !planes.iter().all(|(q, _)| q.len() <= 4 || convex_with_margin(q)) {
        c.count("fan-skipped");
        return;
    }
    let name = format!("{algo:?}");
    c.log(format!("triangulate with {name}"));
    let payloads: BTreeMap<usize, VertexPayloadPNU<f64, 3>> = MeshBasics::vertices(&m).map(|v| (ix(v.id()), *v.payload())).collect();
    let want: usize = faces.iter().map(|(_, v)| v.len() - 2).sum();
    for smooth in [true, false] {
        let kind = if smooth { "shared" } else { "flat" };
        c.phase(format!("{kind} {name}"));
        let (idx, vs) = if smooth {
            m.triangulate(algo, &mut Default::default())
        } else {
            m.triangulate_and_generate_flat_normals_post(algo, &mut Default::default())
        };
        c.phase("judge");
        c.check(idx.len() == 3 * want, &format!("count:{kind}"), || format!("{name}: {} indices for {want} triangles", idx.len()));
        c.check(idx.iter().all(|i| *i < vs.len()), &format!("index:{kind}"), || {
            format!("{name}: an index is out of range in {idx:?} for {} vertices", vs.len())
        });
        // which vertex of the mesh each exported vertex is
        let ids: Vec<usize> = vs.iter().map(|v| v.uv().x as usize).collect();
        if smooth {
            let mut sorted = ids.clone();
            sorted.sort();
            c.check(sorted == payloads.keys().copied().collect::<Vec<_>>(), "vertices:shared", || {
                format!("the vertices {:?} were exported as {ids:?}", payloads.keys())
            });
            for (k, v) in vs.iter().enumerate() {
                c.check(payloads.get(&ids[k]) == Some(v), "payload:shared", || {
                    format!("vertex {} was exported as {v:?} instead of {:?}", ids[k], payloads.get(&ids[k]))
                });
            }
        } else {
            let total: usize = faces.iter().map(|f| f.1.len()).sum();
            c.check(vs.len() == total, "vertices:flat", || format!("{} vertices for {total} corners", vs.len()));
        }
        // The triangles of a face are exported in a row, but the order of the faces is free.
        let corners = |k: usize, block: &[usize]| -> Result<Vec<[usize; 3]>, usize> {
            let mut t = vec![];
            for x in block.chunks(3) {
                let mut r = [0; 3];
                for j in 0..3 {
                    r[j] = faces[k].1.iter().position(|y| *y == ids[x[j]]).ok_or(ids[x[j]])?;
                }
                t.push(r);
            }
            Ok(t)
        };
        let normal_of = |k: usize| unit(newell(&faces[k].1.iter().map(|v| p[v]).collect::<Vec<_>>()));
        let fits = |k: usize, block: &[usize]| {
            corners(k, block).is_ok_and(|t| {
                let d = partition(&planes[k].0, &t, planes[k].1);
                let n = normal_of(k);
                d.bad.is_none()
                    && (!d.reversed || (algo == A::EarClipping && faces[k].1.len() >= 5))
                    && (smooth || block.iter().all(|i| { let g = vs[*i].normal(); dot([g.x, g.y, g.z], n) > 0.0 }))
            })
        };
        let size = |k: usize| 3 * (faces[k].1.len() - 2);
        let mut order: Vec<usize> = (0..faces.len()).collect();
        let (mut at, mut good) = (0, true);
        for k in &order {
            good = good && fits(*k, &idx[at..at + size(*k)]);
            at += size(*k);
        }
        if !good {
            let (mut left, mut free, mut at) = (order.clone(), vec![], 0);
            while let Some(i) = left.iter().position(|k| at + size(*k) <= idx.len() && fits(*k, &idx[at..at + size(*k)])) {
                at += size(left[i]);
                free.push(left.remove(i));
            }
            if left.is_empty() {
                order = free;
                c.count("faces-in-another-order");
            }
        }
        let mut at = 0;
        let mut owner: BTreeMap<usize, usize> = BTreeMap::new();
        for k in order {
            let (f, v) = &faces[k];
            let n = v.len();
            let mine = &idx[at..at + size(k)];
            at += size(k);
            let t = match corners(k, mine) {
                Ok(t) => t,
                Err(id) => {
                    c.fail(&format!("foreign:{kind}"), format!("{name}: face {f} with the vertices {v:?} got a triangle with vertex {id}"));
                    continue;
                }
            };
            let (q, tol) = &planes[k];
            let d = partition(q, &t, *tol);
            if let Some((sig, msg)) = d.bad {
                c.fail(&format!("{sig}:{kind}"), format!("{name}: face {f} with the corners {q:?}: {msg}; triangles {t:?}"));
            }
            if d.reversed {
                let sig = if algo == A::EarClipping && n >= 5 {
                    "winding-reversed:EarClipping:n>=5".to_string()
                } else {
                    format!("winding-reversed:{kind}:{name}")
                };
                c.fail(&sig, format!("{name}: all triangles of face {f} are clockwise: {t:?}"));
            }
            if !smooth {
                let nrm = unit(newell(&v.iter().map(|v| p[v]).collect::<Vec<_>>()));
                let mag = v.iter().flat_map(|v| p[v]).fold(0.0f64, |a, b| a.max(b.abs()));
                let ntol = 1e-9 + 1e-14 * mag * mag / area2(q).abs();
                for i in mine {
                    let o = owner.entry(*i).or_insert(*f);
                    c.check(o == f, "shared-corner:flat", || format!("faces {o} and {f} use the same exported vertex {i}"));
                    let g = vs[*i].normal();
                    let dd = len(sub([g.x, g.y, g.z], nrm));
                    c.check(dd <= ntol, "normal:flat", || {
                        format!("face {f} has the normal {nrm:?}, but its vertex {} was exported with {g:?}", ids[*i])
                    });
                    let mut e = payloads[&ids[*i]];
                    e.set_normal(*g);
                    c.check(e == vs[*i], "payload:flat", || format!("vertex {} was exported as {:?}", ids[*i], vs[*i]));
                }
            }
            c.count("faces-judged");
            if n > 4 {
                c.count("large-faces");
            }
        }
        c.count(&format!("export:{name}:{kind}"));
    }
    // the mesh itself is not changed
    let after = monitor(c, &m, "scene").0;
    c.check(after.hash() == s.hash(), "changed", || "the mesh was changed by the triangulation".into());
    c.state(s.hash());
    c.nontrivial();
}

/// Exports a mesh with more than 65536 vertices.
fn c17_huge(c: &mut Case) {
    if cfg!(miri) {
        return;
    }
    c.phase("setup");
    let mut m = Mesh3d64::new();
    let mut sizes: Vec<usize> = vec![];
    let mut total = 0;
    let want = c.rng.int(66_000, 90_000);
    while total < want {
        let n = c.rng.int(3, 9);
        let o = sizes.len() as f64;
        let h = c.rng.f(0.1, 0.4);
        m.insert_polygon((0..n).map(|i| {
            let (y, x) = (i as f64 * std::f64::consts::TAU / n as f64).sin_cos();
            let mut v = vp([o + h * x, h * y, o * 1e-3]);
            v.set_uv(Vec2::<f64>::new((total + i) as f64, 0.0));
            v
        }));
        sizes.push(n);
        total += n;
    }
    let dead: Vec<usize> = (0..sizes.len()).filter(|_| c.rng.chance(0.1)).collect();
    for f in &dead {
        m.remove_face(*f);
    }
    let live: Vec<usize> = MeshBasics::faces(&m).map(|f| f.id()).collect();
    c.check(live.len() == sizes.len() - dead.len(), "faces", || format!("{} faces are left of {} after removing {}", live.len(), sizes.len(), dead.len()));
    c.log(format!("{total} vertices, {} faces", live.len()));
    let start: Vec<usize> = sizes.iter().scan(0, |a, n| { let b = *a; *a += n; Some(b) }).collect();
    let algo = *c.rng.pick(&[A::Sweep, A::Delaunay, A::MinWeight, A::Auto, A::Fan]);
    for smooth in [true, false] {
        let kind = if smooth { "shared" } else { "flat" };
        c.phase(format!("{kind} {algo:?}"));
        let (idx, vs) = if smooth {
            m.triangulate(algo, &mut Default::default())
        } else {
            m.triangulate_and_generate_flat_normals_post(algo, &mut Default::default())
        };
        c.phase("judge");
        let nt: usize = live.iter().map(|f| sizes[*f] - 2).sum();
        let nv: usize = if smooth { total } else { live.iter().map(|f| sizes[*f]).sum() };
        c.check(idx.len() == 3 * nt && vs.len() == nv, "count:huge", || format!("{} indices and {} vertices instead of {} and {nv}", idx.len(), vs.len(), 3 * nt));
        if let Some(i) = idx.iter().find(|i| **i >= vs.len()) {
            c.fail("index:huge", format!("index {i} is out of range"));
            return;
        }
        // the triangles of the faces may come in any order
        let mut of: BTreeMap<usize, Vec<&[usize]>> = BTreeMap::new();
        for x in idx.chunks(3) {
            let id = vs[x[0]].uv().x as usize;
            of.entry(start.partition_point(|a| *a <= id) - 1).or_default().push(x);
        }
        for f in &live {
            let (n, a) = (sizes[*f], start[*f]);
            let mut area = 0.0;
            let mine = of.remove(f).unwrap_or_default();
            c.check(mine.len() == n - 2, "count:huge", || format!("face {f} with {n} corners got {} triangles", mine.len()));
            for x in mine {
                let q: Vec<_> = x.iter().map(|i| vs[*i].pos()).collect();
                for i in x {
                    let id = vs[*i].uv().x as usize;
                    c.check(id >= a && id < a + n, "foreign:huge", || format!("face {f} has the vertices {a}..{} but got a triangle with vertex {id}", a + n));
                }
                area += ((q[1].x - q[0].x) * (q[2].y - q[0].y) - (q[1].y - q[0].y) * (q[2].x - q[0].x)).abs();
            }
            let w = n as f64 * {
                let (u, v) = (m.vertex(a).pos(), m.vertex(a + 1).pos());
                let o = *f as f64;
                ((u.x - o) * v.y - u.y * (v.x - o)).abs()
            };
            c.check((area - w).abs() <= 1e-9 * (1.0 + *f as f64), "area:huge", || format!("the triangles of face {f} cover twice the area {area} instead of {w}"));
        }
        if smooth {
            for (k, v) in vs.iter().enumerate() {
                c.check(v == m.vertex(k).payload(), "payload:huge", || format!("vertex {k} was exported as {v:?}"));
            }
        }
    }
    c.count("huge");
    c.fingerprint(total as u64);
    c.nontrivial();
}

pub fn props() -> Vec<Property> {
    let ways: &[(&'static str, u64)] = &[
        ("way:EarClipping", 2000),
        ("way:Sweep", 2000),
        ("way:SweepDynamic", 2000),
        ("way:SweepDelaunay", 2000),
        ("way:Delaunay", 2000),
        ("way:MinWeight", 2000),
        ("way:Auto", 2000),
        ("way:Fan", 500),
        ("way:direct-EarRandom", 2000),
        ("way:direct-Small", 200),
        ("kind:comb", 100),
        ("kind:spiral", 100),
        ("kind:collinear", 100),
        ("kind:grid", 100),
        ("kind:stairs", 100),
    ];
    vec![
        Property {
            id: "C16",
            workloads: vec![w("polygons", 40000, 400000, c16)],
            floors: ways.to_vec(),
            rule: "A case generates one simple polygon (14 kinds, exactly checked, up to 200 corners), places it in space, triangulates it in up to 17 ways (every algorithm through the dispatcher and directly) twice, and judges the triangles. Non-trivial: at least one triangulation was judged.",
            assumptions: vec!["polygons are exactly simple and no corner is closer to a foreign side than 1e-5 of the diameter; fan triangulation only for polygons whose corners turn by more than 1e-9"],
        },
        Property {
            id: "C17",
            workloads: vec![w("scenes", 120000, 1000000, c17), w("huge", 4, 40, c17_huge)],
            floors: vec![("faces-judged", 50000), ("large-faces", 5000), ("holes", 500), ("reused", 200), ("isolated", 500), ("wires", 200), ("export:Delaunay:flat", 300), ("export:Fan:shared", 100), ("huge", 2)],
            rule: "A case builds a scene of solids, polygons, prisms and extrusions in random planes with holes, reused slots, wires and isolated vertices, exports it with one algorithm with shared vertices and with flat normals, and judges every face and vertex. Non-trivial: an export was judged.",
            assumptions: vec!["faces are planar and simple"],
        },
        Property {
            id: "C18",
            workloads: vec![w("optimum", 160000, 1280000, c18)],
            floors: vec![("optimum-known", 8000), ("n:3", 200), ("n:4", 500), ("compared-with-others", 8000), ("strictly-better", 500)],
            rule: "A case generates one simple polygon, computes the optimal weight by an independent dynamic programme over exactly tested diagonals, and compares all entry points of the minimum weight algorithm and all other algorithms with it. Non-trivial: a triangulation was compared.",
            assumptions: vec!["diagonals that pass closer than 1e-9 of the diameter to another corner may or may not be used"],
        },
        Property {
            id: "C19",
            workloads: vec![w("circles", 72000, 576000, c19), w("monotone", 36000, 288000, c19_monotone)],
            floors: vec![("diagonals", 100000), ("cocircular", 2000), ("way:direct-Delaunay", 5000), ("way:Auto", 2000)],
            rule: "A case generates one simple polygon, triangulates it by the Delaunay algorithm in three ways, and tests every diagonal against the circles of both adjacent triangles. Non-trivial: a triangulation was judged.",
            assumptions: vec!["faces with at most four corners are dispatched to the minimum weight special case and judged only when the Delaunay function is called directly"],
        },
    ]
}
