//! C32 the same construction on the nalgebra and the bevy backend, and the export to bevy meshes.

use bevy::asset::RenderAssetUsages;
use bevy::math::{Quat, Vec2 as BVec2, Vec3 as BVec3};
use bevy::mesh::{Indices, Mesh as Bevy, PrimitiveTopology, VertexAttributeValues};
use core_harness::gen;
use core_harness::geo::*;
use core_harness::snap::*;
use core_harness::tri::{in_plane, partition};
use procedural_modelling::extensions::bevy::*;
use procedural_modelling::extensions::nalgebra::*;
use procedural_modelling::operations::*;
use procedural_modelling::prelude::*;
use procedural_modelling::primitives::*;
use std::collections::BTreeMap;
use vmon::{w, Case, Property};
use TriangulationAlgorithm as A;

/// Meshes with bevy vertices and other index types.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub struct BX<I: IndexType>(std::marker::PhantomData<I>);
impl<I: IndexType> MeshType for BX<I> {
    type E = u16;
    type V = I;
    type F = u32;
    type EP = EmptyEdgePayload<Self>;
    type VP = BevyVertexPayload3d;
    type FP = EmptyFacePayload<Self>;
    type MP = EmptyMeshPayload<Self>;
    type Mesh = HalfEdgeMeshImpl<Self>;
    type Face = HalfEdgeFaceImpl<Self>;
    type Edge = HalfEdgeImpl<Self>;
    type Vertex = HalfEdgeVertexImpl<Self>;
}
impl<I: IndexType> EuclideanMeshType<3> for BX<I> {
    type S = f32;
    type Vec = BVec3;
    type Vec2 = BVec2;
    type Trans = bevy::transform::components::Transform;
    type Rot = Quat;
    type Poly = Polygon2dBevy;
}
impl<I: IndexType> HalfEdgeImplMeshType for BX<I> {}
impl<I: IndexType> MeshTypeHalfEdge for BX<I> {}
impl<I: IndexType> MeshType3D for BX<I> {}

/// The nalgebra backend in single precision.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub struct N32;
impl MeshType for N32 {
    type E = u32;
    type V = u16;
    type F = u32;
    type EP = EmptyEdgePayload<Self>;
    type VP = VertexPayloadPNU<f32, 3>;
    type FP = EmptyFacePayload<Self>;
    type MP = EmptyMeshPayload<Self>;
    type Mesh = HalfEdgeMeshImpl<Self>;
    type Face = HalfEdgeFaceImpl<Self>;
    type Edge = HalfEdgeImpl<Self>;
    type Vertex = HalfEdgeVertexImpl<Self>;
}
impl EuclideanMeshType<3> for N32 {
    type S = f32;
    type Vec = VecN<f32, 3>;
    type Vec2 = VecN<f32, 2>;
    type Trans = NdAffine<f32, 3>;
    type Rot = NdRotate<f32, 3>;
    type Poly = Polygon2d<f32>;
}
impl HalfEdgeImplMeshType for N32 {}
impl MeshTypeHalfEdge for N32 {}
impl MeshType3D for N32 {}

/// One step of a construction.
#[derive(Clone, Debug)]
enum Op {
    Polygon(Vec<P3>),
    Dihedron(Vec<P3>),
    Prism(Vec<P3>, f32),
    Antiprism(Vec<P3>, f32),
    Pyramid(Vec<P3>, P3),
    Frustum(Vec<P3>, Vec<P3>),
    Vertex(P3),
    Path(Vec<P3>),
    /// the k-th face
    Remove(usize),
    Extrude(usize, P3),
    ExtrudeTri(usize, P3),
    Apex(usize, P3),
    Loop,
    FlipYz,
    Shift(P3),
    Scale(P3),
    Smooth,
}
#[derive(Clone, Debug)]
enum Start {
    Empty,
    Cuboid(P3),
    Cone(f32, f32, usize),
    Tetrahedron(f32),
    Octahedron(f32),
    Frustum(f32, f32, f32, usize),
    UniformPrism(f32, usize),
    UniformAntiprism(f32, usize),
    RegularAntiprism(f32, f32, usize),
    Dodecahedron(f32),
    Icosahedron(f32),
    Geodesic(f32, usize, u8),
    UvSphere(f32, usize, usize),
    Regular(f32, usize),
    Star(f32, f32, usize),
}
type Script = (Start, Vec<Op>);

fn script(c: &mut Case, small: bool) -> Script {
    let f = |x: f64| x as f32;
    let g = |p: P3| p;
    let rad = |c: &mut Case| f(c.rng.logf(0.2, 5.0));
    let n = |c: &mut Case| if small { c.rng.int(3, 6) } else { let k = c.rng.rare(16, 150); c.rng.int(3, k) };
    let polygon = |c: &mut Case| -> (Vec<P3>, gen::Frame) {
        loop {
            let most = if small { 7 } else { c.rng.rare(24, 150) };
            let p = gen::polygon(&mut c.rng, most).p;
            let d = diameter(&p);
            // shapes whose smallest details are visible in single precision
            if feature_size(&p) < 0.01 * d {
                continue;
            }
            let r = c.rng.logf(0.3, 3.0);
            let fr = gen::Frame::random(&mut c.rng, r);
            let m = mean2(&p);
            let l = len(fr.o);
            let o = if l > 5.0 { mulv(fr.o, 5.0 / l) } else { fr.o };
            let fr = gen::Frame { o, ..fr };
            return (p.iter().map(|q| g(fr.at([(q[0] - m[0]) / d * r, (q[1] - m[1]) / d * r]))).collect(), fr);
        }
    };
    let start = match c.rng.below(if small { 10 } else { 30 }) {
        0 => Start::Cuboid([rad(c), rad(c), rad(c)].map(|x| x as f64)),
        1 => Start::Cone(rad(c), rad(c), n(c)),
        2 => Start::Tetrahedron(rad(c)),
        3 => Start::Octahedron(rad(c)),
        4 => Start::Frustum(rad(c), rad(c), rad(c), n(c)),
        5 => Start::UniformPrism(rad(c), n(c)),
        6 => Start::UniformAntiprism(rad(c), n(c)),
        7 => Start::Dodecahedron(rad(c)),
        8 => Start::Icosahedron(rad(c)),
        10 => Start::Geodesic(rad(c), 1 << c.rng.below(3), c.rng.below(3) as u8),
        11 => Start::UvSphere(rad(c), c.rng.int(2, 7), n(c)),
        12 => Start::Regular(rad(c), n(c)),
        13 => Start::Star(rad(c), rad(c), 2 * n(c).min(8)),
        16 => Start::RegularAntiprism(rad(c), rad(c), n(c)),
        _ => Start::Empty,
    };
    let mut ops = vec![];
    let k = if small { c.rng.int(0, 2) } else { c.rng.int(0, 5) } + matches!(start, Start::Empty) as usize;
    for i in 0..k {
        let v = |c: &mut Case| g([c.rng.f(-2.0, 2.0), c.rng.f(-2.0, 2.0), c.rng.f(0.5, 2.0)]);
        let which = if i == 0 && matches!(start, Start::Empty) { c.rng.below(6) } else { c.rng.below(17) };
        ops.push(match which {
            0 => Op::Polygon(polygon(c).0),
            1 => Op::Dihedron(polygon(c).0),
            2 => Op::Prism(polygon(c).0, rad(c)),
            3 => {
                let (p, fr) = polygon(c);
                // the upper ring has its corners in the middle of the edges
                let q: Vec<P2> = p.iter().map(|q| fr.to2(*q)).collect();
                let m: Vec<P2> = (0..q.len()).map(|i| mean2(&[q[i], q[(i + 1) % q.len()]])).collect();
                if is_simple(&m) && area2(&m) > 0.0 && feature_size(&m) > 0.01 * diameter(&m) {
                    Op::Antiprism(p, rad(c))
                } else {
                    Op::Prism(p, rad(c))
                }
            }
            4 | 5 => {
                let (p, fr) = polygon(c);
                let h = rad(c) as f64;
                let m = mean(&p);
                let up = |p: P3| g(addv(p, mulv(fr.z, h)));
                if which == 4 {
                    Op::Pyramid(p, up(m))
                } else {
                    let k = c.rng.f(0.4, 1.5);
                    let top = p.iter().map(|q| up(addv(m, mulv(sub(*q, m), k)))).collect();
                    Op::Frustum(p, top)
                }
            }
            6 => Op::Vertex(v(c)),
            7 => Op::Path((0..c.rng.int(2, 4)).map(|_| v(c)).collect()),
            8 | 9 => Op::Remove(c.rng.below(100)),
            10 => Op::Extrude(c.rng.below(100), v(c)),
            11 => Op::ExtrudeTri(c.rng.below(100), v(c)),
            12 => Op::Apex(c.rng.below(100), v(c)),
            13 => if small { Op::Smooth } else { Op::Loop },
            14 => Op::FlipYz,
            15 => if c.rng.chance(0.5) { Op::Shift(v(c)) } else { Op::Scale(g([c.rng.f(0.5, 2.0), c.rng.f(0.5, 2.0), c.rng.f(0.5, 2.0)])) },
            _ => Op::Smooth,
        });
    }
    (start, ops)
}
fn mean2(p: &[P2]) -> P2 {
    let n = p.len() as f64;
    [p.iter().map(|q| q[0]).sum::<f64>() / n, p.iter().map(|q| q[1]).sum::<f64>() / n]
}

macro_rules! backend {
    ($name:ident, $t:ty, $s:ty, $vec:expr) => {
        fn $name(sc: &Script) -> HalfEdgeMeshImpl<$t> {
            type T = $t;
            type M = HalfEdgeMeshImpl<T>;
            type VP = <T as MeshType>::VP;
            type Tr = <T as EuclideanMeshType<3>>::Trans;
            type Ve = <T as EuclideanMeshType<3>>::Vec;
            let s = |x: f32| x as $s;
            let ve = |p: &P3| -> Ve { $vec(p[0] as $s, p[1] as $s, p[2] as $s) };
            let vp = |p: &P3| <VP as HasPosition<3, Ve>>::from_pos(ve(p));
            let l = |p: &[P3]| -> Vec<VP> { p.iter().map(vp).collect() };
            let tr = |p: &P3| <Tr as TransformTrait<$s, 3>>::from_translation(ve(p));
            let mut m: M = match &sc.0 {
                Start::Empty => M::default(),
                Start::Cuboid(p) => M::cuboid(ve(p)),
                Start::Cone(a, b, n) => M::cone(s(*a), s(*b), *n),
                Start::Tetrahedron(a) => M::regular_tetrahedron(s(*a)),
                Start::Octahedron(a) => M::regular_octahedron(s(*a)),
                Start::Frustum(a, b, h, n) => M::regular_frustum(s(*a), s(*b), s(*h), *n, false),
                Start::UniformPrism(a, n) => M::uniform_prism(s(*a), *n),
                Start::UniformAntiprism(a, n) => M::uniform_antiprism(s(*a), *n),
                Start::RegularAntiprism(a, h, n) => M::regular_antiprism(s(*a), s(*h), *n),
                Start::Dodecahedron(a) => M::dodecahedron(s(*a)),
                Start::Icosahedron(a) => M::regular_icosahedron(s(*a)),
                Start::Geodesic(a, n, 0) => M::geodesic_icosahedron(s(*a), *n),
                Start::Geodesic(a, n, 1) => M::geodesic_tetrahedron(s(*a), *n),
                Start::Geodesic(a, n, _) => M::geodesic_octahedron(s(*a), *n),
                Start::UvSphere(a, n, k) => M::uv_sphere(s(*a), *n, *k),
                Start::Regular(a, n) => M::regular_polygon(s(*a), *n),
                Start::Star(a, b, n) => M::regular_star(s(*a), s(*b), *n),
            };
            for op in &sc.1 {
                let nth = |m: &M, k: usize| MeshBasics::face_ids(m).nth(k % MeshBasics::num_faces(m).max(1));
                match op {
                    Op::Polygon(p) => { m.insert_polygon(l(p)); }
                    Op::Dihedron(p) => { m.insert_dihedron(l(p)); }
                    Op::Prism(p, h) => { m.insert_prism(l(p), s(*h)); }
                    Op::Antiprism(p, h) => { m.insert_antiprism(l(p), s(*h)); }
                    Op::Pyramid(p, a) => { m.insert_pyramid(l(p), vp(a)); }
                    Op::Frustum(p, q) => { m.insert_frustum(l(p), l(q), false); }
                    Op::Vertex(p) => { m.add_vertex(vp(p)); }
                    Op::Path(p) => { m.insert_path(l(p)); }
                    Op::Remove(k) => if let Some(f) = nth(&m, *k) { m.remove_face(f); },
                    Op::Extrude(k, d) => if let Some(f) = nth(&m, *k) { m.extrude_face(f, tr(d)); },
                    Op::ExtrudeTri(k, d) => if let Some(f) = nth(&m, *k) { m.extrude_tri_face(f, tr(d)); },
                    Op::Apex(k, d) => if let Some(f) = nth(&m, *k) {
                        let e = m.face(f).edge_id();
                        m.remove_face(f);
                        m.fill_hole_apex(e, vp(d));
                    },
                    Op::Loop => {
                        let tri = MeshBasics::num_faces(&m) > 0 && MeshBasics::num_faces(&m) <= 60 && MeshBasics::faces(&m).all(|f| FaceBasics::num_vertices(f, &m) == 3);
                        let closed = MeshBasics::edges(&m).all(|e| !e.is_boundary_self());
                        let mut sets: Vec<Vec<usize>> = MeshBasics::faces(&m).map(|f| { let mut v: Vec<usize> = FaceBasics::vertices(f, &m).map(|v| ix(v.id())).collect(); v.sort(); v }).collect();
                        sets.sort();
                        if tri && closed && sets.windows(2).all(|w| w[0] != w[1]) {
                            m.loop_subdivision(&LinearVertexInterpolator::<3> {});
                        }
                    }
                    Op::FlipYz => { m.flip_yz(); }
                    Op::Shift(p) => { m.translate(&ve(p)); }
                    Op::Scale(p) => { m.scale(&ve(p)); }
                    Op::Smooth => { m.generate_smooth_normals(); }
                }
            }
            m
        }
    };
}
backend!(in_bevy, BevyMeshType3d32, f32, BVec3::new);
backend!(in_bevy16, BX<u16>, f32, BVec3::new);
backend!(in_bevy8, BX<u8>, f32, BVec3::new);
backend!(in_f64, MeshType3d64PNU, f64, Vec3::<f64>::new);
backend!(in_f32, N32, f32, Vec3::<f32>::new);

fn a3(v: &[f32; 3]) -> P3 {
    v.map(|x| x as f64)
}

fn same(c: &mut Case, what: &str, s: &Snap, p: &BTreeMap<usize, P3>, s2: &Snap, p2: &BTreeMap<usize, P3>) {
    c.check(s == s2, &format!("topology:{what}"), || format!("{what}: {s:?} instead of {s2:?}"));
    let mag = p2.values().flatten().fold(1.0f64, |a, b| a.max(b.abs()));
    for (v, q) in p2 {
        let d = p.get(v).map_or(f64::MAX, |p| len(sub(*p, *q)));
        c.check(d <= 5e-4 * mag, &format!("position:{what}"), || format!("{what}: vertex {v} is at {:?} instead of {q:?}", p.get(v)));
    }
}

fn bpos<T: HalfEdgeImplMeshType<VP = BevyVertexPayload3d>>(m: &HalfEdgeMeshImpl<T>) -> BTreeMap<usize, P3> {
    MeshBasics::vertices(m).map(|v| (ix(v.id()), a3(&VertexBasics::payload(v).pos().to_array()))).collect()
}

fn c32_parity(c: &mut Case) {
    c.phase("setup");
    let sc = script(c, false);
    c.log(format!("{sc:?}"));
    c.phase("bevy");
    let b = in_bevy(&sc);
    c.phase("nalgebra");
    let n = in_f64(&sc);
    c.phase("nalgebra-f32");
    let n32 = in_f32(&sc);
    c.phase("judge");
    let (s, _) = monitor(c, &n, "nalgebra");
    let (sb, _) = monitor(c, &b, "bevy");
    let (s32, _) = monitor(c, &n32, "nalgebra-f32");
    let p = core_harness::prims::pos(&n);
    same(c, "bevy", &sb, &bpos(&b), &s, &p);
    let q: BTreeMap<usize, P3> = MeshBasics::vertices(&n32).map(|v| (ix(v.id()), { let p = VertexBasics::payload(v).pos(); [p.x as f64, p.y as f64, p.z as f64] })).collect();
    same(c, "nalgebra-f32", &s32, &q, &s, &p);
    c.add("vertices", p.len() as u64);
    c.count(match sc.0 { Start::Empty => "built", _ => "from-primitive" });
    for o in &sc.1 {
        let n = format!("{o:?}");
        c.count(&format!("op:{}", n.split('(').next().unwrap_or("")));
    }
    c.state(s.shape_hash());
    c.fingerprint(vmon::fnv(format!("{sc:?}").as_bytes()));
    c.nontrivial();
}

const ALGOS: &[A] = &[A::Auto, A::EarClipping, A::Sweep, A::SweepDynamic, A::SweepDelaunay, A::Delaunay, A::MinWeight, A::Fan];

/// The indices and the positions and normals of an exported mesh.
#[derive(Clone, Debug, PartialEq)]
struct Out {
    wide: bool,
    i: Vec<usize>,
    p: Vec<[f32; 3]>,
    n: Vec<[f32; 3]>,
}
fn out(c: &mut Case, what: &str, m: &Bevy) -> Option<Out> {
    c.check(m.primitive_topology() == PrimitiveTopology::TriangleList, "topology-of-the-export", || what.into());
    let k: Vec<_> = m.attributes().map(|(a, _)| a.id).collect();
    c.check(k.len() == 2 && k.contains(&Bevy::ATTRIBUTE_POSITION.id) && k.contains(&Bevy::ATTRIBUTE_NORMAL.id), "attributes", || format!("{what}: {k:?}"));
    let v = |a| match m.attribute(a) {
        Some(VertexAttributeValues::Float32x3(v)) => Some(v.clone()),
        _ => None,
    };
    let (wide, i) = match m.indices() {
        Some(Indices::U32(v)) => (true, v.iter().map(|x| *x as usize).collect::<Vec<usize>>()),
        Some(Indices::U16(v)) => (false, v.iter().map(|x| *x as usize).collect()),
        None => {
            c.fail("no-indices", what.into());
            return None;
        }
    };
    let (Some(p), Some(n)) = (v(Bevy::ATTRIBUTE_POSITION), v(Bevy::ATTRIBUTE_NORMAL)) else {
        c.fail("attribute-format", what.into());
        return None;
    };
    c.check(p.len() == n.len(), "lengths", || format!("{what}: {} positions, {} normals", p.len(), n.len()));
    c.check(i.len() % 3 == 0 && i.iter().all(|i| *i < p.len()), "indices", || format!("{what}: {i:?} for {} vertices", p.len()));
    Some(Out { wide, i, p, n })
}

macro_rules! exported {
    ($c:ident, $m:expr, $wide:expr) => {{
        let c = &mut *$c;
        let m = $m;
        let (s, _) = monitor(c, &m, "mesh");
        let mut m = m;
        for v in MeshBasics::vertices_mut(&mut m) {
            let n = BVec3::new(c.rng.normal() as f32, c.rng.normal() as f32, c.rng.normal() as f32);
            VertexBasics::payload_mut(v).set_normal(n);
        }
        let m = m;
        let p = bpos(&m);
        let normal: BTreeMap<usize, P3> = MeshBasics::vertices(&m).map(|v| (ix(v.id()), a3(&VertexBasics::payload(v).normal().to_array()))).collect();
        let faces: Vec<Vec<usize>> = s.f.keys().map(|f| s.face_verts(*f)).collect();
        let flats: Vec<(Vec<P2>, P3)> = faces.iter().map(|f| { let q: Vec<P3> = f.iter().map(|v| p[v]).collect(); (in_plane(&q).0, unit(newell(&q))) }).collect();
        for algo in ALGOS {
            if *algo == A::Fan && !flats.iter().all(|(q, _)| q.len() <= 4 || clearly_convex(q)) {
                continue;
            }
            let flat = c.rng.chance(0.5);
            let what = format!("{algo:?} flat={flat}");
            c.phase(format!("export {what}"));
            let usage = *c.rng.pick(&[RenderAssetUsages::MAIN_WORLD, RenderAssetUsages::all()]);
            let b = m.to_bevy_ex(usage, *algo, flat);
            c.phase("judge");
            c.check(b.asset_usage == usage, "usage", || what.clone());
            let Some(o) = out(c, &what, &b) else { continue };
            c.check(o.wide == $wide, "index-type", || format!("{what}: wide indices: {}", o.wide));
            // which vertex, and of which face, is behind each of the exported ones
            let mut owner: Vec<(usize, usize)> = vec![];
            if flat {
                for (k, f) in faces.iter().enumerate() {
                    owner.extend(f.iter().map(|v| (*v, k)));
                }
            } else {
                owner.extend(s.v.keys().map(|v| (*v, usize::MAX)));
                // the vertices may come in any order
                let mut free: Vec<usize> = s.v.keys().copied().collect();
                for (j, w) in owner.iter_mut().enumerate() {
                    let Some((q, n)) = o.p.get(j).zip(o.n.get(j)) else { break };
                    if let Some(h) = free.iter().position(|v| a3(q) == p[v] && a3(n) == normal[v]) {
                        w.0 = free.remove(h);
                    }
                }
            }
            c.check(owner.len() == o.p.len(), "vertex-count", || format!("{what}: {} instead of {}", o.p.len(), owner.len()));
            if owner.len() != o.p.len() || o.i.len() % 3 != 0 || o.i.iter().any(|i| *i >= owner.len()) {
                continue;
            }
            // the faces may come in any order, one after another
            let fits = |k: usize, from: usize, at: usize| -> bool {
                let f = &faces[k];
                if at + 3 * (f.len() - 2) > o.i.len() || (flat && from + f.len() > o.p.len()) {
                    return false;
                }
                let mut of: BTreeMap<usize, usize> = BTreeMap::new();
                if flat {
                    let mut free: Vec<usize> = (0..f.len()).collect();
                    for j in from..from + f.len() {
                        match free.iter().position(|i| a3(&o.p[j]) == p[&f[*i]]) {
                            Some(h) if len(sub(a3(&o.n[j]), flats[k].1)) <= 1e-3 => of.insert(j, free.remove(h)),
                            _ => return false,
                        };
                    }
                }
                let mut tris = vec![];
                for t in o.i[at..at + 3 * (f.len() - 2)].chunks(3) {
                    let x: Vec<Option<usize>> = t.iter().map(|i| if flat { of.get(i).copied() } else { f.iter().position(|v| *v == owner[*i].0) }).collect();
                    let [Some(a), Some(b), Some(d)] = x[..] else { return false };
                    tris.push([a, b, d]);
                }
                let v = partition(&flats[k].0, &tris, 1e-4 * diameter(&flats[k].0).powi(2).max(1e-6));
                v.bad.is_none() && (!v.reversed || (*algo == A::EarClipping && f.len() >= 5))
            };
            let mut order: Vec<usize> = (0..faces.len()).collect();
            {
                let (mut from, mut at, mut good) = (0, 0, true);
                for k in &order {
                    good = good && fits(*k, from, at);
                    from += faces[*k].len();
                    at += 3 * (faces[*k].len() - 2);
                }
                let (mut from, mut at, mut left, mut free) = (0, 0, order.clone(), vec![]);
                while !good {
                    let Some(h) = left.iter().position(|k| fits(*k, from, at)) else { break };
                    let k = left.remove(h);
                    from += faces[k].len();
                    at += 3 * (faces[k].len() - 2);
                    free.push(k);
                }
                if left.is_empty() && !free.is_empty() {
                    order = free;
                    c.count("faces-in-another-order");
                }
            }
            if flat {
                // the corners of a face may come in any order
                let mut from = 0;
                for k in &order {
                    let (k, f) = (*k, &faces[*k]);
                    let mut free: Vec<usize> = f.clone();
                    for j in from..from + f.len() {
                        let hit = free.iter().position(|v| a3(&o.p[j]) == p[v]);
                        match hit {
                            Some(h) => owner[j] = (free.remove(h), k),
                            None => c.fail("flat-vertices", format!("{what}: vertex {j} at {:?} is not a corner of face {k}", o.p[j])),
                        }
                        let d = len(sub(a3(&o.n[j]), flats[k].1));
                        c.check(d <= 1e-3, "flat-normal", || format!("{what}: the normal of vertex {j} is {:?}, the one of its face is {:?}", o.n[j], flats[k].1));
                    }
                    from += f.len();
                }
                c.count("flat");
            } else {
                for (j, (v, _)) in owner.iter().enumerate() {
                    c.check(a3(&o.p[j]) == p[v], "positions", || format!("{what}: vertex {j} is exported at {:?} instead of {:?}", o.p[j], p[v]));
                    c.check(a3(&o.n[j]) == normal[v], "normals", || format!("{what}: vertex {j} is exported with the normal {:?} instead of {:?}", o.n[j], normal[v]));
                }
            }
            // triangles of one face after those of another
            let mut t = o.i.chunks(3);
            let total: usize = faces.iter().map(|f| f.len() - 2).sum();
            c.check(o.i.len() == 3 * total, "triangle-count", || format!("{what}: {} indices for {total} triangles", o.i.len()));
            for k in order {
                let f = &faces[k];
                let mut tris = vec![];
                for _ in 0..f.len() - 2 {
                    let Some(t) = t.next() else { break };
                    let x: Vec<Option<usize>> = t.iter().map(|i| f.iter().position(|v| *v == owner[*i].0 && (!flat || owner[*i].1 == k))).collect();
                    if let [Some(a), Some(b), Some(d)] = x[..] {
                        tris.push([a, b, d]);
                    } else {
                        c.fail("corner", format!("{what}: the triangle {t:?} isn't between the corners of face {k}"));
                    }
                }
                if tris.len() == f.len() - 2 {
                    let v = partition(&flats[k].0, &tris, 1e-4 * diameter(&flats[k].0).powi(2).max(1e-6));
                    if let Some((sig, msg)) = v.bad {
                        c.fail(&format!("{sig}:{algo:?}"), format!("{what}: face {k} with the corners {:?}: {msg}", flats[k].0));
                    }
                    if v.reversed && !(*algo == A::EarClipping && f.len() >= 5) {
                        c.fail(&format!("winding:{algo:?}"), format!("{what}: the triangles {tris:?} of face {k} are clockwise"));
                    }
                    c.add("triangles", tris.len() as u64);
                }
            }
            // exporting into a mesh that was used before
            let mut old = Bevy::new(PrimitiveTopology::TriangleList, usage);
            if c.rng.chance(0.5) {
                old.insert_attribute(Bevy::ATTRIBUTE_UV_0, vec![[0.5f32, 0.5]; 7]);
                old.insert_attribute(Bevy::ATTRIBUTE_POSITION, vec![[1.0f32, 2.0, 3.0]; 7]);
                old.insert_attribute(Bevy::ATTRIBUTE_COLOR, vec![[0.5f32; 4]; 7]);
                old.insert_indices(Indices::U16(vec![0, 1, 2, 3, 4, 5]));
            } else {
                old = b.clone();
            }
            c.phase(format!("again {what}"));
            m.bevy_set_ex(&mut old, *algo, flat, &mut Default::default());
            c.phase("judge");
            let again = out(c, &what, &old);
            c.check(again.as_ref() == Some(&o), "again", || format!("{what}: exporting again gave {again:?} instead of {o:?}"));
            if *algo == A::Auto && !flat {
                c.phase("to_bevy");
                let d = m.to_bevy(usage);
                m.bevy_set(&mut old);
                let (x, y) = (out(c, "to_bevy", &d), out(c, "bevy_set", &old));
                c.check(x.as_ref() == Some(&o) && y.as_ref() == Some(&o), "default", || "to_bevy or bevy_set isn't the automatic algorithm without flat normals".into());
            }
            c.count(&format!("algo:{algo:?}"));
        }
        c.check(bpos(&m) == p && snap(&m).ok().as_ref() == Some(&s), "original", || "the exported mesh changed".into());
        c.state(s.shape_hash());
        c.nontrivial();
    }};
}

fn clearly_convex(p: &[P2]) -> bool {
    let n = p.len();
    (0..n).all(|i| {
        let (a, b, d) = (p[i], p[(i + 1) % n], p[(i + 2) % n]);
        orient_ex(a, b, d).est() > 1e-3 * d2(a, b) * d2(b, d)
    })
}

fn c32_export(c: &mut Case) {
    c.phase("setup");
    let kind = c.rng.below(5);
    let sc = script(c, kind == 0);
    c.log(format!("{sc:?}"));
    c.phase("build");
    c.fingerprint(vmon::fnv(format!("{sc:?}").as_bytes()));
    match kind {
        0 => {
            c.count("u8");
            exported!(c, in_bevy8(&sc), false)
        }
        1 => {
            c.count("u16");
            exported!(c, in_bevy16(&sc), false)
        }
        _ => {
            c.count("u32");
            exported!(c, in_bevy(&sc), true)
        }
    }
}

pub fn props() -> Vec<Property> {
    vec![Property {
        id: "C32",
        workloads: vec![w("export", 40000, 1000000, c32_export), w("parity", 100000, 2000000, c32_parity)],
        floors: vec![
            ("u8", 200), ("u16", 200), ("u32", 1000), ("flat", 2000), ("algo:Auto", 1000), ("algo:EarClipping", 1000), ("algo:Sweep", 1000), ("algo:SweepDynamic", 1000), ("algo:SweepDelaunay", 1000), ("algo:Delaunay", 1000),
            ("algo:MinWeight", 1000), ("algo:Fan", 300), ("triangles", 100000), ("built", 1000), ("from-primitive", 1000), ("op:Extrude", 300), ("op:ExtrudeTri", 300), ("op:Apex", 300), ("op:Loop", 300), ("op:Prism", 300), ("op:Remove", 300),
        ],
        rule: "A case is a construction of primitives, lofts, extrusions and edits. It is run on the bevy and on the nalgebra backend in double and single precision and the meshes are compared, or it is run with bevy vertices and 8, 16 or 32 bit indices, exported with every algorithm, and the triangles of every face, positions and normals are judged in double precision. Non-trivial: always.",
        assumptions: vec!["faces are planar and their details can be resolved in single precision"],
    }]
}
