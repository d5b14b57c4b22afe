//! C26 transformations of whole meshes, C31 conversions.

use crate::c25::*;
use core_harness::curve::{c31_nd, curved_scene, random_curve, same_in_order, MC};
use core_harness::geo::P2;
use core_harness::snap::*;
use core_harness::tri::scene;
use procedural_modelling::extensions::bevy::*;
use procedural_modelling::extensions::nalgebra::*;
use procedural_modelling::prelude::*;
use procedural_modelling::primitives::*;
use std::collections::BTreeMap;
use vmon::{w, Case, Property};

/// A payload with a position for every kind of element.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct XP {
    pub tag: u64,
    pub p: Vec3<f64>,
}
impl Eq for XP {}
impl std::hash::Hash for XP {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        self.tag.hash(h)
    }
}
impl Default for XP {
    fn default() -> Self {
        XP { tag: 0, p: Vec3::new(1.0, 2.0, 3.0) }
    }
}
impl EdgePayload for XP {
    fn allocate() -> Self {
        Self::default()
    }
    fn is_empty(&self) -> bool {
        false
    }
}
impl DefaultEdgePayload for XP {}
impl FacePayload for XP {
    fn allocate() -> Self {
        Self::default()
    }
}
impl DefaultFacePayload for XP {}
impl VertexPayload for XP {
    fn allocate() -> Self {
        Self::default()
    }
}
impl MeshPayload<XT> for XP {}
impl HasPosition<3, Vec3<f64>> for XP {
    type S = f64;
    fn from_pos(p: Vec3<f64>) -> Self {
        XP { tag: 0, p }
    }
    fn pos(&self) -> &Vec3<f64> {
        &self.p
    }
    fn set_pos(&mut self, p: Vec3<f64>) {
        self.p = p;
    }
}
impl Transformable<3> for XP {
    type S = f64;
    type Vec = Vec3<f64>;
    type Trans = NdAffine<f64, 3>;
    type Rot = NdRotate<f64, 3>;
    fn transform(&mut self, t: &Self::Trans) -> &mut Self {
        self.p = t.apply(self.p);
        self
    }
    fn lerp(&mut self, o: &Self, t: f64) -> &mut Self {
        self.p = self.p.lerp(&o.p, t);
        self
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub struct XT;
impl MeshType for XT {
    type E = u32;
    type V = u16;
    type F = usize;
    type EP = XP;
    type VP = XP;
    type FP = XP;
    type MP = XP;
    type Mesh = HalfEdgeMeshImpl<Self>;
    type Face = HalfEdgeFaceImpl<Self>;
    type Edge = HalfEdgeImpl<Self>;
    type Vertex = HalfEdgeVertexImpl<Self>;
}
impl EuclideanMeshType<3> for XT {
    type S = f64;
    type Vec = VecN<f64, 3>;
    type Vec2 = VecN<f64, 2>;
    type Trans = NdAffine<f64, 3>;
    type Rot = NdRotate<f64, 3>;
    type Poly = Polygon2d<f64>;
}
impl HalfEdgeImplMeshType for XT {}
impl MeshTypeHalfEdge for XT {}

/// What is known about the payload of an element.
#[derive(Clone, Debug, PartialEq)]
struct Seen {
    points: Vec<Vec<f64>>,
    normal: Vec<f64>,
    rest: Vec<f64>,
}
type All = BTreeMap<(u8, usize), Seen>;

fn arr<S: Copy + Into<f64>>(x: &[S]) -> Vec<f64> {
    x.iter().map(|v| (*v).into()).collect()
}
fn curve_points<const D: usize, T: EuclideanMeshType<D>>(k: &CurvedEdgeType<D, T>, rd: impl Fn(T::Vec) -> Vec<f64>) -> Seen {
    match *k {
        CurvedEdgeType::Linear => Seen { points: vec![], normal: vec![], rest: vec![1.0] },
        CurvedEdgeType::QuadraticBezier(a) => Seen { points: vec![rd(a)], normal: vec![], rest: vec![2.0] },
        CurvedEdgeType::CubicBezier(a, b) => Seen { points: vec![rd(a), rd(b)], normal: vec![], rest: vec![3.0] },
    }
}
fn none() -> Seen {
    Seen { points: vec![], normal: vec![], rest: vec![] }
}
fn pnu<const D: usize>(p: &VertexPayloadPNU<f64, D>) -> Seen {
    Seen { points: vec![arr(p.pos().as_slice())], normal: arr(p.normal().as_slice()), rest: arr(p.uv().as_slice()) }
}
fn xp(p: &XP) -> Seen {
    Seen { points: vec![arr(p.p.as_slice())], normal: vec![], rest: vec![p.tag as f64] }
}
fn b2(p: &BevyVertexPayload2d) -> Seen {
    Seen { points: vec![arr(&p.pos().to_array())], normal: vec![], rest: vec![] }
}
fn b3(p: &BevyVertexPayload3d) -> Seen {
    Seen { points: vec![arr(&p.pos().to_array())], normal: arr(&p.normal().to_array()), rest: arr(&p.uv().to_array()) }
}

fn judge<const D: usize>(c: &mut Case, what: &str, old: &All, new: &All, m: &Mdl<D>, eps: f64, normals: bool) {
    c.check(old.keys().eq(new.keys()), "elements", || format!("{what}: other elements"));
    let a = |v: &[f64]| -> [f64; D] { std::array::from_fn(|i| v[i]) };
    for (k, x) in old {
        let y = &new[k];
        c.check(y.rest == x.rest && x.points.len() == y.points.len(), &format!("other-data:{what}"), || format!("element {k:?} {x:?} became {y:?}"));
        for (p, q) in x.points.iter().zip(&y.points) {
            let (want, mag) = m.apply(&a(p), true);
            c.check((0..D).all(|i| (want[i] - q[i]).abs() <= 64.0 * eps * (mag[i] + mag.iter().sum::<f64>() * 0.1) + 1e-35), &format!("position:{what}"), || format!("element {k:?} at {p:?} was moved to {q:?} instead of {want:?}"));
        }
        if normals && !x.normal.is_empty() {
            let want = m.apply(&a(&x.normal), false).0;
            let l = x.normal.iter().map(|v| v * v).sum::<f64>().sqrt();
            c.check((0..D).all(|i| (want[i] - y.normal[i]).abs() <= 64.0 * eps * (l + 1e-30)), &format!("normal:{what}"), || format!("element {k:?} with the normal {:?} got {:?} instead of {want:?}", x.normal, y.normal));
            let l2 = y.normal.iter().map(|v| v * v).sum::<f64>().sqrt();
            c.check((l - l2).abs() <= 64.0 * eps * l, &format!("normal-length:{what}"), || format!("element {k:?}: {l} became {l2}"));
        }
    }
}

macro_rules! check_mesh {
    ($c:ident, $m:expr, $mt:ty, $d:literal, $b:ty, $name:literal, $vr:expr, $er:expr, $fr:expr, $mr:expr) => {{
        let c = &mut *$c;
        let m = $m;
        let read = |m: &$mt| -> All {
            let mut a = All::new();
            for v in MeshBasics::vertices(m) {
                a.insert((0, ix(v.id())), $vr(VertexBasics::payload(v)));
            }
            for e in MeshBasics::edges(m) {
                a.insert((1, ix(e.id())), $er(EdgeBasics::payload(e)));
            }
            for f in MeshBasics::faces(m) {
                a.insert((2, ix(f.id())), $fr(FaceBasics::payload(f)));
            }
            a.insert((3, 0), $mr(MeshBasics::payload(m)));
            a
        };
        let (s, old) = (snap(&m).unwrap_or_default(), read(&m));
        c.add("elements", old.len() as u64);
        c.add("control-points", old.iter().filter(|x| x.0 .0 == 1).map(|x| x.1.points.len() as u64).sum());
        let v = vecd::<$d, $b>(c, "shift");
        let sc = vecd::<$d, $b>(c, "scale");
        let rot = <$b as Back<$d>>::rot(&mut c.rng);
        let (vv, sv) = (<$b as Back<$d>>::mk(v), <$b as Back<$d>>::mk(sc));
        type Tr = <$b as Back<$d>>::Tr;
        for op in 0..6 {
            let mut g = m.clone();
            // the transformation, what it does, whether it keeps lengths
            let (what, copy, map, rigid) = match op {
                0 => {
                    let a = g.translated(&vv);
                    c.phase(concat!($name, " translate"));
                    c.check(std::ptr::eq(g.translate(&vv) as *const _, &g as *const _), "returns-self", || "translate".into());
                    ("translate", a, Mdl::shift(v), true)
                }
                1 => {
                    let a = g.scaled(&sv);
                    c.phase(concat!($name, " scale"));
                    g.scale(&sv);
                    ("scale", a, Mdl::scale(sc), false)
                }
                2 => {
                    let Some((r, mm)) = rot.clone() else { continue };
                    let a = g.rotated(&r);
                    c.phase(concat!($name, " rotate"));
                    g.rotate(&r);
                    let mut md = Mdl::new(mm, [0.0; $d]);
                    md = md.then(&Mdl::shift([0.0; $d]));
                    ("rotate", a, md, true)
                }
                3 => {
                    let Some((r, mm)) = rot.clone() else { continue };
                    let t = Tr::from_rotation(r).with_translation(vv);
                    let a = g.transformed(&t);
                    c.phase(concat!($name, " transform"));
                    g.transform(&t);
                    ("transform-rigid", a, Mdl::new(mm, v), true)
                }
                4 => {
                    let t = Tr::from_scale(sv).with_translation(vv);
                    let a = g.transformed(&t);
                    g.transform(&t);
                    ("transform-scale", a, Mdl::scale(sc).then(&Mdl::shift(v)), false)
                }
                _ => {
                    let Some((t, md)) = <$b as Back<$d>>::any(&mut c.rng) else { continue };
                    let a = g.transformed(&t);
                    g.transform(&t);
                    ("transform", a, md, false)
                }
            };
            c.phase("judge");
            c.log(format!("{} {what} {map:?}", $name));
            let new = read(&g);
            judge(c, what, &old, &new, &map, <$b as Back<$d>>::E, rigid);
            c.check(read(&copy) == new && snap(&copy).ok() == snap(&g).ok(), &format!("copy:{what}"), || format!("{}: the transformed copy differs", $name));
            c.check(snap(&g).ok().as_ref() == Some(&s), &format!("links:{what}"), || format!("{}: the links changed", $name));
            c.check(read(&m) == old && snap(&m).ok().as_ref() == Some(&s), &format!("original:{what}"), || format!("{}: the original changed", $name));
            c.count(what);
        }
        c.count($name);
        c.state(s.hash());
        c.fingerprint(vmon::mix(s.hash(), v[0].to_bits()));
        c.nontrivial();
    }};
}

/// A curved mesh of the bevy backend.
fn bevy_scene(c: &mut Case) -> BevyMesh2d {
    c.phase("setup");
    let mut m = BevyMesh2d::default();
    let size = c.rng.logf(1e-2, 1e2) as f32;
    let at = |c: &mut Case| BevyVertexPayload2d::from_pos(bevy::math::Vec2::new(c.rng.f(-1.0, 1.0) as f32 * size, c.rng.f(-1.0, 1.0) as f32 * size));
    let mut edges: Vec<u32> = vec![];
    let most = c.rng.rare(10, 150);
    for _ in 0..c.rng.int(1, 3) {
        let g = core_harness::gen::polygon(&mut c.rng, most).p;
        let d = core_harness::geo::diameter(&g).max(core_harness::geo::magnitude(&g)) as f32;
        let o = *at(c).pos();
        edges.push(m.insert_polygon(g.iter().map(|q| BevyVertexPayload2d::from_pos(bevy::math::Vec2::new(q[0] as f32 / d * size, q[1] as f32 / d * size) + o))));
    }
    for e in edges {
        if c.rng.chance(0.3) {
            let f = m.edge(e).face_id();
            let f = if f == <u32 as IndexType>::max() { m.edge(m.edge(e).twin_id()).face_id() } else { f };
            let e2 = m.face(f).edge_id();
            m.remove_face(f);
            c.count("holes");
            if c.rng.chance(0.4) {
                let flag = c.rng.chance(0.5);
                m.close_hole(e2, Default::default(), flag);
                c.count("reused");
            }
        }
    }
    for _ in 0..c.rng.below(3) {
        let p = at(c);
        m.add_vertex(p);
        c.count("isolated");
    }
    if c.rng.chance(0.3) {
        let p: Vec<_> = (0..c.rng.int(2, 5)).map(|_| at(c)).collect();
        m.insert_path(p);
        c.count("wires");
    }
    let s = snap(&m).unwrap_or_default();
    let chance = *c.rng.pick(&[0.0, 0.3, 0.6]);
    for (i, e) in &s.e {
        if e.twin < *i || !c.rng.chance(chance) {
            continue;
        }
        let i = if c.rng.chance(0.5) { *i } else { e.twin };
        let p = |v: usize| -> P2 { let p = *m.vertex(v as u32).payload().pos(); [p.x as f64, p.y as f64] };
        let (a, b) = (p(s.e[&i].origin), p(s.target(i)));
        let v = |v: Vec2<f64>| bevy::math::Vec2::new(v.x as f32, v.y as f32);
        let k = match random_curve(c, a, b) {
            CurvedEdgeType::Linear => CurvedEdgeType::Linear,
            CurvedEdgeType::QuadraticBezier(q) => CurvedEdgeType::QuadraticBezier(v(q)),
            CurvedEdgeType::CubicBezier(q, r) => CurvedEdgeType::CubicBezier(v(q), v(r)),
        };
        m.edge_mut(i as u32).set_curve_type(k);
        c.count("curved-edges");
    }
    m
}

fn c26(c: &mut Case) {
    match c.rng.below(8) {
        0 | 1 => {
            let chance = *c.rng.pick(&[0.0, 0.3, 0.8]);
            let mut m: MC = curved_scene(c, chance);
            for v in MeshBasics::vertices_mut(&mut m) {
                let (a, b) = (c.rng.f(-1.0, 1.0), c.rng.f(-1.0, 1.0));
                let p = VertexBasics::payload_mut(v);
                p.set_normal(Vec2::new(a, b));
                p.set_uv(Vec2::new(b, a));
            }
            check_mesh!(c, m, MC, 2, N2d, "nalgebra-2d", pnu::<2>, |p: &CurvedEdgePayload<2, MeshType2d64PNUCurved>| curve_points(&p.curve_type(), |v| arr(v.as_slice())), |_: &EmptyFacePayload<_>| none(), |_: &EmptyMeshPayload<_>| none());
        }
        2 => {
            let mut m = scene(c);
            for v in MeshBasics::vertices_mut(&mut m) {
                let a = c.rng.normal();
                let p = VertexBasics::payload_mut(v);
                p.set_normal(Vec3::new(a, c.rng.normal(), c.rng.normal()).normalize());
            }
            let mut g = m.clone();
            c.phase("flip_yz");
            g.flip_yz();
            let same = MeshBasics::vertices(&m).zip(MeshBasics::vertices(&g)).all(|(a, b)| {
                let (a, b) = (a.payload(), b.payload());
                let (p, q) = (a.pos(), b.pos());
                p.x == q.x && p.y == q.z && p.z == q.y && a.uv() == b.uv()
            });
            c.check(same && snap(&g).ok() == snap(&m).ok(), "flip_yz", || "flip_yz isn't the exchange of y and z".into());
            c.count("flip_yz");
            check_mesh!(c, m, Mesh3d64, 3, N3d, "nalgebra-3d", pnu::<3>, |_: &EmptyEdgePayload<_>| none(), |_: &EmptyFacePayload<_>| none(), |_: &EmptyMeshPayload<_>| none());
        }
        3 => {
            let m = curved_scene(c, 0.0).to_nd::<4>(1.0);
            let mut m = m;
            for v in MeshBasics::vertices_mut(&mut m) {
                let p = VertexBasics::payload_mut(v);
                p.set_pos(Vec4::from_fn(|_, _| c.rng.f(-5.0, 5.0)));
                p.set_normal(Vec4::from_fn(|_, _| c.rng.f(-1.0, 1.0)));
                p.set_uv(Vec2::new(c.rng.unit(), c.rng.unit()));
            }
            check_mesh!(c, m, MeshNd64<4>, 4, N4d, "nalgebra-4d", pnu::<4>, |_: &EmptyEdgePayload<_>| none(), |_: &EmptyFacePayload<_>| none(), |_: &EmptyMeshPayload<_>| none());
        }
        4 => {
            let mut m = curved_scene(c, 0.0).to_nd::<6>(1.0);
            for v in MeshBasics::vertices_mut(&mut m) {
                let p = VertexBasics::payload_mut(v);
                p.set_pos(VecN::<f64, 6>::from_fn(|_, _| c.rng.f(-5.0, 5.0)));
                p.set_normal(VecN::<f64, 6>::from_fn(|_, _| c.rng.f(-1.0, 1.0)));
            }
            check_mesh!(c, m, MeshNd64<6>, 6, N6d, "nalgebra-6d", pnu::<6>, |_: &EmptyEdgePayload<_>| none(), |_: &EmptyFacePayload<_>| none(), |_: &EmptyMeshPayload<_>| none());
        }
        5 => {
            let m = bevy_scene(c);
            check_mesh!(c, m, BevyMesh2d, 2, Bev2, "bevy-2d", b2, |p: &CurvedEdgePayload<2, BevyMeshType2d32>| curve_points(&p.curve_type(), |v| arr(&v.to_array())), |_: &EmptyFacePayload<_>| none(), |_: &EmptyMeshPayload<_>| none());
        }
        6 => {
            let mut m = BevyMesh3d::from(&scene(c));
            for v in MeshBasics::vertices_mut(&mut m) {
                let n = bevy::math::Vec3::new(c.rng.normal() as f32, c.rng.normal() as f32, c.rng.normal() as f32).normalize();
                VertexBasics::payload_mut(v).set_normal(n);
            }
            check_mesh!(c, m, BevyMesh3d, 3, Bev3, "bevy-3d", b3, |_: &EmptyEdgePayload<_>| none(), |_: &EmptyFacePayload<_>| none(), |_: &EmptyMeshPayload<_>| none());
        }
        _ => {
            let mut m = HalfEdgeMeshImpl::<XT>::default();
            for _ in 0..c.rng.int(1, 3) {
                let n = c.rng.int(3, 7);
                let e = m.insert_polygon((0..n).map(|i| XP { tag: i as u64, p: Vec3::new(i as f64, (i * i) as f64, 1.0) }));
                if c.rng.chance(0.3) {
                    m.remove_face(m.edge(e).face_id().min(m.edge(m.edge(e).twin_id()).face_id()));
                }
            }
            m.add_vertex(XP::default());
            let mut k = 0;
            let mut next = |c: &mut Case| {
                k += 1;
                XP { tag: k, p: Vec3::new(c.rng.f(-5.0, 5.0), c.rng.f(-5.0, 5.0), c.rng.f(-5.0, 5.0)) }
            };
            for v in MeshBasics::vertices_mut(&mut m) {
                *VertexBasics::payload_mut(v) = next(c);
            }
            for e in MeshBasics::edges_mut(&mut m) {
                *EdgeBasics::payload_mut(e) = next(c);
            }
            for f in MeshBasics::faces_mut(&mut m) {
                *FaceBasics::payload_mut(f) = next(c);
            }
            let p = next(c);
            m.set_payload(p);
            check_mesh!(c, m, HalfEdgeMeshImpl<XT>, 3, N3d, "all-payloads", xp, xp, xp, xp);
        }
    }
}

/// Payloads alone.
fn c26_payloads(c: &mut Case) {
    c.phase("payload");
    let mut pt = |c: &mut Case| {
        let f = |c: &mut Case| c.rng.f(-5.0, 5.0);
        let mut a = VertexPayloadPNU::<f64, 3>::from_pos(Vec3::new(f(c), f(c), f(c)));
        a.set_normal(Vec3::new(f(c), f(c), f(c)));
        a.set_uv(Vec2::new(f(c), f(c)));
        a
    };
    let (a, b) = (pt(c), pt(c));
    let t = match c.rng.below(4) { 0 => 0.0, 1 => 1.0, _ => c.rng.f(-0.5, 1.5) };
    let flat = |s: &Seen| -> Vec<f64> { s.points.iter().flatten().chain(&s.normal).chain(&s.rest).copied().collect() };
    let judge = |c: &mut Case, what: &str, x: Vec<f64>, y: Vec<f64>, z: Vec<f64>, eps: f64| {
        for i in 0..x.len() {
            let want = x[i] * (1.0 - t) + y[i] * t;
            c.check((z[i] - want).abs() <= 16.0 * eps * (x[i].abs() + y[i].abs()) * (1.0 + t.abs()), &format!("lerp:{what}"), || format!("{x:?} to {y:?} at {t} is {z:?}"));
        }
    };
    judge(c, "pnu", flat(&pnu(&a)), flat(&pnu(&b)), flat(&pnu(&a.lerped(&b, t))), f64::EPSILON);
    let (x, y) = (BevyVertexPayload3d::from(&a), BevyVertexPayload3d::from(&b));
    let want: Vec<f64> = flat(&pnu(&a)).iter().map(|v| *v as f32 as f64).collect();
    c.check(flat(&b3(&x)) == want, "convert", || format!("{a:?} became {x:?}"));
    judge(c, "bevy-3d", flat(&b3(&x)), flat(&b3(&y)), flat(&b3(&x.lerped(&y, t as f32))), f32::EPSILON as f64);
    let p2 = |p: &VertexPayloadPNU<f64, 3>| BevyVertexPayload2d::from_pos(bevy::math::Vec2::new(p.pos().x as f32, p.pos().y as f32));
    let (u, v) = (p2(&a), p2(&b));
    judge(c, "bevy-2d", flat(&b2(&u)), flat(&b2(&v)), flat(&b2(&u.lerped(&v, t as f32))), f32::EPSILON as f64);
    let mut z = x;
    z.set_uv(*y.uv());
    z.set_normal(*y.normal());
    z.set_pos(*y.pos());
    c.check(z == y && b3(&z) == b3(&y), "setters", || format!("{z:?} instead of {y:?}"));
    let mut w = u;
    w.set_pos(*v.pos());
    c.check(w == v && b2(&w) == b2(&v), "setters-2d", || format!("{w:?} instead of {v:?}"));
    let mut w = a;
    w.set_uv(*b.uv());
    w.set_normal(*b.normal());
    w.set_pos(*b.pos());
    c.check(w == b && pnu(&w) == pnu(&b), "setters-pnu", || format!("{w:?} instead of {b:?}"));
    c.count("payloads");
    c.fingerprint(t.to_bits() ^ a.pos().x.to_bits());
    c.nontrivial();
}

// ---------------------------------------------------------------------------------------- C31

fn c31_3d(c: &mut Case) {
    let mut m = scene(c);
    for v in MeshBasics::vertices_mut(&mut m) {
        let p = VertexBasics::payload_mut(v);
        p.set_normal(Vec3::new(c.rng.normal(), c.rng.normal(), c.rng.normal()));
        p.set_uv(Vec2::new(c.rng.unit(), c.rng.unit()));
    }
    let s = snap(&m).unwrap_or_default();
    let old: Vec<VertexPayloadPNU<f64, 3>> = MeshBasics::vertices(&m).map(|v| *v.payload()).collect();
    c.phase("BevyMesh3d::from");
    let r = BevyMesh3d::from(&m);
    c.phase("judge");
    let (sr, _) = monitor(c, &r, "bevy");
    same_in_order(c, "bevy-3d", &s, &sr);
    c.check(MeshBasics::vertices(&m).map(|v| *v.payload()).eq(old.iter().copied()) && snap(&m).ok().as_ref() == Some(&s), "original", || "the original changed".into());
    for (a, b) in old.iter().zip(MeshBasics::vertices(&r)) {
        let want: Vec<f64> = { let x = pnu(a); x.points.iter().flatten().chain(&x.normal).chain(&x.rest).map(|v| *v as f32 as f64).collect() };
        let x = b3(VertexBasics::payload(b));
        let got: Vec<f64> = x.points.iter().flatten().chain(&x.normal).chain(&x.rest).copied().collect();
        c.check(got == want, "payload", || format!("{want:?} became {got:?}"));
    }
    if s.f.keys().next_back().is_some_and(|f| *f + 1 > s.f.len()) {
        c.count("sparse-faces");
    }
    c.count("to bevy-3d");
    c.state(sr.hash());
    c.fingerprint(s.hash());
    c.nontrivial();
}

fn c31_2d(c: &mut Case) {
    let m = bevy_scene(c);
    let read = |m: &BevyMesh2d| -> Vec<(Seen, Option<Seen>)> {
        MeshBasics::vertices(m).map(|v| (b2(VertexBasics::payload(v)), None)).chain(MeshBasics::edges(m).map(|e| (curve_points(&e.curve_type(), |v| arr(&v.to_array())), None))).collect()
    };
    let (s, old) = (snap(&m).unwrap_or_default(), read(&m));
    let mag = MeshBasics::vertices(&m).map(|v| v.payload().pos().length()).fold(0.0f32, f32::max);
    let tol = mag * c.rng.f(0.02, 0.2) as f32;
    c.phase("flatten");
    let mut flat = m.clone();
    flat.flatten_curved_edges(tol);
    c.phase("to_3d");
    let r = m.to_3d(tol);
    c.phase("judge");
    let (sf, _) = monitor(c, &flat, "flat");
    let (sr, _) = monitor(c, &r, "bevy-3d");
    same_in_order(c, "bevy-2d-3d", &sf, &sr);
    for (a, b) in MeshBasics::vertices(&flat).zip(MeshBasics::vertices(&r)) {
        let (p, q) = (a.payload().pos(), b.payload().pos());
        c.check(q.x == p.x && q.y == p.y && q.z == 0.0, "position", || format!("{p:?} became {q:?}"));
    }
    c.check(read(&m) == old && snap(&m).ok().as_ref() == Some(&s), "original", || "the original changed".into());
    c.count("to_3d");
    c.state(sr.hash());
    c.fingerprint(vmon::mix(s.hash(), tol.to_bits() as u64));
    c.nontrivial();
}

pub fn props() -> Vec<Property> {
    vec![
        Property {
            id: "C26",
            workloads: vec![w("meshes", 160000, 2000000, c26), w("payloads", 200000, 2000000, c26_payloads)],
            floors: vec![
                ("nalgebra-2d", 1000), ("nalgebra-3d", 500), ("nalgebra-4d", 500), ("nalgebra-6d", 500), ("bevy-2d", 500), ("bevy-3d", 500), ("all-payloads", 500), ("translate", 5000), ("scale", 5000), ("rotate", 5000),
                ("transform-rigid", 5000), ("transform-scale", 5000), ("transform", 2000), ("flip_yz", 500), ("control-points", 5000), ("payloads", 10000), ("isolated", 500), ("holes", 500), ("wires", 500),
            ],
            rule: "A case is a mesh of one of seven types with random payloads; after every kind of transformation all payloads are compared with an affine map in double precision, and all links with those before. Non-trivial: always.",
            assumptions: vec![],
        },
        Property {
            id: "C31",
            workloads: vec![w("nd", 120000, 1200000, c31_nd), w("bevy-3d", 120000, 1200000, c31_3d), w("bevy-2d", 120000, 1200000, c31_2d)],
            floors: vec![
                ("to 2d", 500), ("to 3d", 1000), ("to 4d", 500), ("to 10d", 500), ("to bevy-3d", 2000), ("to_3d", 2000), ("sparse-faces", 300), ("isolated", 1000), ("holes", 1000), ("wires", 500), ("reused", 300), ("curved-edges", 2000),
            ],
            rule: "A case is a mesh with holes, deleted faces, wires, isolated vertices and curves that is converted; all links and payloads of the result are compared with the original (after flattening). Non-trivial: always.",
            assumptions: vec!["flattening itself is judged by C27"],
        },
    ]
}
