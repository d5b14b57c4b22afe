//! C09 closed primitives, C10 their dimensions, C11 flat primitives.

use crate::gen;
use crate::geo::*;
use crate::snap::*;
use crate::types::*;
use procedural_modelling::extensions::nalgebra::*;
use procedural_modelling::prelude::*;
use procedural_modelling::primitives::*;
use procedural_modelling::operations::*;
use std::collections::{BTreeMap, BTreeSet};
use std::f64::consts::{PI, TAU};
use vmon::{w, Case, Property};

type PNU = VertexPayloadPNU<f64, 3>;

/// Meshes in space with any index types.
pub trait Space: HalfEdgeImplMeshType + MeshTypeHalfEdge + MeshType3D + MeshType<VP = PNU, EP: DefaultEdgePayload, FP: DefaultFacePayload> + EuclideanMeshType<3, S = f64, Vec = VecN<f64, 3>, Trans = NdAffine<f64, 3>> {}
impl<T: HalfEdgeImplMeshType + MeshTypeHalfEdge + MeshType3D + MeshType<VP = PNU, EP: DefaultEdgePayload, FP: DefaultFacePayload> + EuclideanMeshType<3, S = f64, Vec = VecN<f64, 3>, Trans = NdAffine<f64, 3>>> Space for T {}

pub fn vp(p: P3) -> PNU {
    <PNU as HasPosition<3, Vec3<f64>>>::from_pos(Vec3::new(p[0], p[1], p[2]))
}
pub fn pos<T: HalfEdgeImplMeshType<VP = PNU>>(m: &HalfEdgeMeshImpl<T>) -> BTreeMap<usize, P3> {
    MeshBasics::vertices(m).map(|v| (ix(v.id()), { let p = v.payload().pos(); [p.x, p.y, p.z] })).collect()
}

/// A solid together with its mathematical definition.
pub struct Solid<T: HalfEdgeImplMeshType> {
    pub name: String,
    pub mesh: HalfEdgeMeshImpl<T>,
    pub size: f64,
    pub v: usize,
    pub e: usize,
    /// number of corners -> number of faces
    pub faces: BTreeMap<usize, usize>,
    pub at: Option<Vec<P3>>,
    pub volume: Option<f64>,
    pub convex: bool,
    pub planar: bool,
    pub edge: Option<f64>,
    pub radius: Option<f64>,
    pub centred: bool,
    /// all faces are congruent regular polygons
    pub regular: bool,
    pub flat: bool,
}

fn faces(l: &[(usize, usize)]) -> BTreeMap<usize, usize> {
    let mut m = BTreeMap::new();
    for (k, n) in l {
        if *n > 0 {
            *m.entry(*k).or_insert(0) += n;
        }
    }
    m
}

pub fn ring(r: f64, n: usize, shift: f64, y: f64) -> Vec<P3> {
    (0..n)
        .map(|i| {
            let a = PI * (2.0 * i as f64 + shift) / n as f64;
            [r * a.cos(), y, -r * a.sin()]
        })
        .collect()
}
fn ngon_area(r: f64, n: usize) -> f64 {
    0.5 * n as f64 * r * r * (TAU / n as f64).sin()
}
/// Signed area with respect to a direction.
fn area_along(p: &[P3], z: P3) -> f64 {
    0.5 * dot(newell(p), z)
}
/// Volume of the layer between two polygons with a lateral cross-section halfway (prismatoid).
fn simpson(h: f64, a0: f64, am: f64, a1: f64) -> f64 {
    h / 6.0 * (a0 + 4.0 * am + a1)
}
fn mid(a: P3, b: P3) -> P3 {
    mulv(addv(a, b), 0.5)
}

pub const SOLIDS: &[&str] = &[
    "cuboid", "cube", "regular_hexahedron", "regular_pyramid", "cone", "regular_tetrahedron", "regular_octahedron", "regular_frustum", "cylinder", "regular_prism", "uniform_prism", "regular_antiprism",
    "uniform_antiprism", "prism", "antiprism", "antiprism_iter", "pyramid", "frustum", "dodecahedron", "regular_icosahedron", "icosphere", "geodesic_icosahedron", "geodesic_tetrahedron",
    "geodesic_octahedron", "uv_sphere", "dihedron",
];

pub fn payloads(p: &[P3]) -> Vec<PNU> {
    p.iter().map(|p| vp(*p)).collect()
}

fn normalise_mid(a: P3, b: P3, r: f64) -> P3 {
    mulv(unit(addv(a, b)), r)
}

/// Corners after repeatedly splitting every triangle in four and projecting the new corners onto
/// the sphere.
fn refine(tris: &[[P3; 3]], k: usize, r: f64) -> Vec<[P3; 3]> {
    let mut t = tris.to_vec();
    for _ in 0..k {
        let mut n = vec![];
        for [a, b, c] in t {
            let (ab, bc, ca) = (normalise_mid(a, b, r), normalise_mid(b, c, r), normalise_mid(c, a, r));
            n.extend([[a, ab, ca], [ab, b, bc], [ca, bc, c], [ab, bc, ca]]);
        }
        t = n;
    }
    t
}
fn distinct(tris: &[[P3; 3]], r: f64) -> Vec<P3> {
    let mut s: BTreeMap<[i64; 3], P3> = BTreeMap::new();
    for p in tris.iter().flatten() {
        // merge up to rounding: neighbours in a grid of 1e-7
        let k = p.map(|x| (x / r * 1e7).round() as i64);
        let mut found = false;
        for d in 0..27 {
            let q = [k[0] + d % 3 - 1, k[1] + d / 3 % 3 - 1, k[2] + d / 9 - 1];
            found |= s.contains_key(&q);
        }
        if !found {
            s.insert(k, *p);
        }
    }
    s.into_values().collect()
}

pub fn solid<T: Space>(c: &mut Case, name: &str) -> Solid<T>
where
    HalfEdgeMeshImpl<T>: MeshTrait<T = T>,
{
    type M<T> = HalfEdgeMeshImpl<T>;
    let nmax = if c.thorough { 120 } else { 32 };
    let nmax = c.rng.rare(nmax, 300);
    let n = if c.rng.chance(0.6) { c.rng.int(3, 9) } else { c.rng.int(3, nmax) };
    let r = c.rng.logf(1e-3, 1e3);
    let h = c.rng.logf(0.05, 20.0) * r;
    let fr = gen::Frame::random(&mut c.rng, r);
    let mut s = Solid {
        name: name.to_string(),
        mesh: M::<T>::default(),
        size: r.max(h),
        v: 0,
        e: 0,
        faces: BTreeMap::new(),
        at: None,
        volume: None,
        convex: true,
        planar: true,
        edge: None,
        radius: None,
        centred: false,
        regular: false,
        flat: false,
    };
    c.phase(format!("build {name}"));
    match name {
        "cuboid" | "cube" | "regular_hexahedron" => {
            let mut d = [r, h, c.rng.logf(0.05, 20.0) * r];
            if name != "cuboid" {
                d = [r; 3];
                s.edge = Some(r);
                s.regular = true;
            }
            c.log(format!("{name}({d:?})"));
            s.mesh = match name {
                "cuboid" => M::<T>::cuboid(Vec3::new(d[0], d[1], d[2])),
                "cube" => M::<T>::cube(r),
                _ => M::<T>::regular_hexahedron(r),
            };
            s.size = d[0].max(d[1]).max(d[2]);
            (s.v, s.e, s.faces) = (8, 12, faces(&[(4, 6)]));
            s.at = Some((0..8).map(|i| [(i & 1) as f64 - 0.5, (i >> 1 & 1) as f64 - 0.5, (i >> 2 & 1) as f64 - 0.5]).map(|p| [p[0] * d[0], p[1] * d[1], p[2] * d[2]]).collect());
            s.volume = Some(d[0] * d[1] * d[2]);
            s.centred = true;
        }
        "regular_pyramid" | "cone" => {
            c.log(format!("{name}({r}, {h}, {n})"));
            s.mesh = if name == "cone" { M::<T>::cone(r, h, n) } else { M::<T>::regular_pyramid(r, h, n) };
            (s.v, s.e, s.faces) = (n + 1, 2 * n, faces(&[(3, n), (n, 1)]));
            let mut p = ring(r, n, 0.0, 0.0);
            p.push([0.0, h, 0.0]);
            s.at = Some(p);
            s.volume = Some(ngon_area(r, n) * h / 3.0);
        }
        "regular_tetrahedron" => {
            c.log(format!("{name}({r})"));
            s.mesh = M::<T>::regular_tetrahedron(r);
            (s.v, s.e, s.faces) = (4, 6, faces(&[(3, 4)]));
            s.edge = Some(r);
            s.size = r;
            s.centred = true;
            s.regular = true;
            s.radius = Some(r * (3f64 / 8.0).sqrt());
            s.volume = Some(r.powi(3) / (6.0 * 2f64.sqrt()));
        }
        "regular_octahedron" => {
            c.log(format!("{name}({r})"));
            s.mesh = M::<T>::regular_octahedron(r);
            (s.v, s.e, s.faces) = (6, 12, faces(&[(3, 8)]));
            s.edge = Some(r * 2f64.sqrt());
            s.radius = Some(r);
            s.size = r;
            s.centred = true;
            s.regular = true;
            s.volume = Some(4.0 / 3.0 * r.powi(3));
        }
        "regular_frustum" | "cylinder" | "regular_prism" | "uniform_prism" => {
            let r2 = if name == "regular_frustum" { r * c.rng.logf(0.1, 10.0) } else { r };
            let h = if name == "uniform_prism" { 2.0 * r * (PI / n as f64).sin() } else { h };
            c.log(format!("{name}({r}, {r2}, {h}, {n})"));
            s.mesh = match name {
                "regular_frustum" => M::<T>::regular_frustum(r, r2, h, n, false),
                "cylinder" => M::<T>::cylinder(r, h, n),
                "regular_prism" => M::<T>::regular_prism(r, h, n),
                _ => {
                    s.edge = Some(h);
                    M::<T>::uniform_prism(r, n)
                }
            };
            (s.v, s.e, s.faces) = (2 * n, 3 * n, faces(&[(4, n), (n, 2)]));
            let mut p = ring(r, n, 0.0, 0.0);
            p.extend(ring(r2, n, 0.0, h));
            s.at = Some(p);
            s.size = r.max(r2).max(h);
            s.volume = Some(ngon_area(1.0, n) * h / 3.0 * (r * r + r * r2 + r2 * r2));
        }
        "regular_antiprism" | "uniform_antiprism" => {
            let l = 2.0 * r * (PI / n as f64).sin();
            let q = 2.0 * r * (PI / (2 * n) as f64).sin();
            let h = if name == "uniform_antiprism" { (l * l - q * q).sqrt() } else { h };
            c.log(format!("{name}({r}, {h}, {n})"));
            s.mesh = if name == "uniform_antiprism" {
                s.edge = Some(l);
                M::<T>::uniform_antiprism(r, n)
            } else {
                M::<T>::regular_antiprism(r, h, n)
            };
            (s.v, s.e, s.faces) = (2 * n, 4 * n, faces(&[(3, 2 * n), (n, 2)]));
            let mut p = ring(r, n, 0.0, 0.0);
            p.extend(ring(r, n, 1.0, h));
            s.at = Some(p);
            let m = r * (PI / (2 * n) as f64).cos();
            s.volume = Some(simpson(h, ngon_area(r, n), ngon_area(m, 2 * n), ngon_area(r, n)));
        }
        "prism" | "antiprism" | "pyramid" | "frustum" | "antiprism_iter" => {
            // any simple polygon in any plane of space
            let p2: Vec<P2> = gen::polygon(&mut c.rng, n.max(4)).p;
            let n = p2.len();
            let d = diameter(&p2);
            let p2: Vec<P2> = p2.iter().map(|q| [q[0] / d * r, q[1] / d * r]).collect();
            let base: Vec<P3> = p2.iter().map(|q| fr.at(*q)).collect();
            let a = area2(&p2) / 2.0;
            s.convex = is_convex_weak(&p2);
            s.size = base.iter().flatten().fold(r.max(h), |a, b| a.max(b.abs()));
            c.log(format!("{name} with height {h} over {base:?}"));
            let up = |p: P3| addv(p, mulv(fr.z, h));
            match name {
                "prism" => {
                    s.mesh = M::<T>::prism(payloads(&base), h);
                    (s.v, s.e, s.faces) = (2 * n, 3 * n, faces(&[(4, n), (n, 2)]));
                    let mut p = base.clone();
                    p.extend(base.iter().map(|p| up(*p)));
                    s.at = Some(p);
                    s.volume = Some(a * h);
                }
                "pyramid" => {
                    let k = c.rng.below(n);
                    let apex = up(mid(mid(base[k], base[(k + 1) % n]), base[(k + 2) % n]));
                    s.mesh = M::<T>::pyramid(payloads(&base), vp(apex));
                    (s.v, s.e, s.faces) = (n + 1, 2 * n, faces(&[(3, n), (n, 1)]));
                    let mut p = base.clone();
                    p.push(apex);
                    s.at = Some(p);
                    s.volume = Some(a * h / 3.0);
                }
                "antiprism" => {
                    s.mesh = M::<T>::antiprism(payloads(&base), h);
                    (s.v, s.e, s.faces) = (2 * n, 4 * n, faces(&[(3, 2 * n), (n, 2)]));
                    let top: Vec<P3> = (0..n).map(|i| up(mid(base[i], base[(i + 1) % n]))).collect();
                    let m: Vec<P3> = (0..n).flat_map(|i| [mid(base[i], top[i]), mid(base[(i + 1) % n], top[i])]).collect();
                    s.volume = Some(simpson(h, a, area_along(&m, fr.z), area_along(&top, fr.z)));
                    let mut p = base.clone();
                    p.extend(top);
                    s.at = Some(p);
                    s.convex = false;
                }
                "frustum" => {
                    let k = c.rng.f(0.3, 2.0);
                    let o = mean(&base);
                    let top: Vec<P3> = base.iter().map(|p| up(addv(o, mulv(sub(*p, o), k)))).collect();
                    s.mesh = M::<T>::frustum(payloads(&base), payloads(&top), false);
                    (s.v, s.e, s.faces) = (2 * n, 3 * n, faces(&[(4, n), (n, 2)]));
                    s.volume = Some(a * h / 3.0 * (1.0 + k + k * k));
                    let mut p = base.clone();
                    p.extend(top);
                    s.at = Some(p);
                }
                _ => {
                    let k = c.rng.f(0.5, 1.5);
                    let o = mean(&base);
                    let top: Vec<P3> = (0..n).map(|i| mid(base[i], base[(i + 1) % n])).map(|p| up(addv(o, mulv(sub(p, o), k)))).collect();
                    s.mesh = M::<T>::antiprism_iter(payloads(&base), payloads(&top));
                    (s.v, s.e, s.faces) = (2 * n, 4 * n, faces(&[(3, 2 * n), (n, 2)]));
                    let mut p = base.clone();
                    p.extend(top);
                    s.at = Some(p);
                    s.convex = false;
                    let _ = k;
                }
            }
        }
        "dodecahedron" => {
            c.log(format!("{name}({r})"));
            s.mesh = M::<T>::dodecahedron(r);
            (s.v, s.e, s.faces) = (20, 30, faces(&[(5, 12)]));
            let l = 4.0 * r / (3f64.sqrt() * (1.0 + 5f64.sqrt()));
            s.edge = Some(l);
            s.radius = Some(r);
            s.size = r;
            s.centred = true;
            s.regular = true;
            s.volume = Some((15.0 + 7.0 * 5f64.sqrt()) / 4.0 * l.powi(3));
        }
        "regular_icosahedron" => {
            c.log(format!("{name}({r})"));
            s.mesh = M::<T>::regular_icosahedron(r);
            (s.v, s.e, s.faces) = (12, 30, faces(&[(3, 20)]));
            s.edge = Some(r);
            s.radius = Some((10.0 + 2.0 * 5f64.sqrt()).sqrt() / 4.0 * r);
            s.size = r;
            s.centred = true;
            s.regular = true;
            s.volume = Some(5.0 * (3.0 + 5f64.sqrt()) / 12.0 * r.powi(3));
        }
        "icosphere" | "geodesic_icosahedron" | "geodesic_tetrahedron" | "geodesic_octahedron" => {
            let k = c.rng.below(if c.thorough { 5 } else { 4 });
            let n = 1usize << k;
            c.log(format!("{name}({r}, {n})"));
            let t = n * n;
            let base;
            match name {
                "geodesic_tetrahedron" => {
                    s.mesh = M::<T>::geodesic_tetrahedron(r, n);
                    base = M::<T>::geodesic_tetrahedron(r, 1);
                    (s.v, s.e, s.faces) = (2 * t + 2, 6 * t, faces(&[(3, 4 * t)]));
                }
                "geodesic_octahedron" => {
                    s.mesh = M::<T>::geodesic_octahedron(r, n);
                    base = M::<T>::geodesic_octahedron(r, 1);
                    (s.v, s.e, s.faces) = (4 * t + 2, 12 * t, faces(&[(3, 8 * t)]));
                }
                _ => {
                    s.mesh = if name == "icosphere" { M::<T>::icosphere(r, n) } else { M::<T>::geodesic_icosahedron(r, n) };
                    base = M::<T>::geodesic_icosahedron(r, 1);
                    (s.v, s.e, s.faces) = (10 * t + 2, 30 * t, faces(&[(3, 20 * t)]));
                }
            }
            let b = snap(&base).unwrap_or_default();
            let bp = pos(&base);
            let tris: Vec<[P3; 3]> = b.f.keys().map(|f| b.face_verts(*f)).filter(|v| v.len() == 3).map(|v| [bp[&v[0]], bp[&v[1]], bp[&v[2]]]).collect();
            let fine = refine(&tris, k, r);
            s.volume = Some(fine.iter().map(|[a, b, c]| dot(*a, cross(*b, *c)) / 6.0).sum());
            s.at = Some(distinct(&fine, r));
            s.radius = Some(r);
            s.size = r;
            s.centred = true;
            if k == 0 {
                s.regular = true;
                s.edge = Some(len(sub(tris[0][0], tris[0][1])));
            }
        }
        "uv_sphere" => {
            let rings = c.rng.int(2, 16);
            let m = n;
            c.log(format!("{name}({r}, {rings}, {m})"));
            s.mesh = M::<T>::uv_sphere(r, rings, m);
            (s.v, s.e) = ((rings - 1) * m + 2, rings * m + (rings - 1) * m);
            s.faces = faces(&[(3, 2 * m), (4, (rings - 2) * m)]);
            s.size = r;
            s.radius = Some(r);
            let at = |i: usize| (PI * i as f64 / rings as f64).sin_cos();
            let mut vol = 0.0;
            for i in 0..rings {
                let ((s0, c0), (s1, c1)) = (at(i), at(i + 1));
                vol += ngon_area(r, m) * r * (c0 - c1) / 3.0 * (s0 * s0 + s0 * s1 + s1 * s1);
            }
            s.volume = Some(vol);
            let mut p = vec![[0.0, r, 0.0], [0.0, -r, 0.0]];
            for i in 1..rings {
                let (si, co) = at(i);
                for j in 0..m {
                    let (b, a) = (TAU * j as f64 / m as f64).sin_cos();
                    p.push([r * si * a, r * co, r * si * b]);
                }
            }
            s.at = Some(p);
        }
        "dihedron" => {
            let p2 = gen::polygon(&mut c.rng, n.max(4)).p;
            let n = p2.len();
            let base: Vec<P3> = p2.iter().map(|q| fr.at(*q)).collect();
            c.log(format!("{name}({base:?})"));
            s.mesh = M::<T>::dihedron(payloads(&base));
            (s.v, s.e, s.faces) = (n, n, faces(&[(n, 2)]));
            s.size = base.iter().flatten().fold(diameter(&p2), |a, b| a.max(b.abs()));
            s.at = Some(base);
            s.flat = true;
            s.convex = false;
            s.volume = Some(0.0);
        }
        _ => unreachable!(),
    }
    c.count(&format!("solid:{name}"));
    s
}

/// Signed volume enclosed by all faces.
pub fn volume(s: &Snap, p: &BTreeMap<usize, P3>) -> f64 {
    let o = mean(&p.values().copied().collect::<Vec<_>>());
    let mut vol = 0.0;
    for f in s.f.keys() {
        let q: Vec<P3> = s.face_verts(*f).iter().map(|v| sub(p[v], o)).collect();
        let m = mean(&q);
        for i in 0..q.len() {
            vol += dot(m, cross(q[i], q[(i + 1) % q.len()])) / 6.0;
        }
    }
    vol
}

fn check_topology<T: Space>(c: &mut Case, s: &Solid<T>) {
    let n = &s.name;
    c.phase(format!("check {n}"));
    let (sn, info) = monitor(c, &s.mesh, n);
    c.check(sn.v.len() == s.v && sn.e.len() == 2 * s.e && sn.f.len() == s.faces.values().sum::<usize>(), &format!("counts:{n}"), || {
        format!("{} vertices, {} edges, {} faces instead of {}, {}, {}", sn.v.len(), sn.e.len() / 2, sn.f.len(), s.v, s.e, s.faces.values().sum::<usize>())
    });
    c.check(info.boundary_edges == 0, &format!("open:{n}"), || format!("{} boundary edges", info.boundary_edges));
    c.check(info.components == 1 && info.isolated == 0, &format!("components:{n}"), || format!("{} components", info.components));
    c.check(info.euler == 2, &format!("euler:{n}"), || format!("Euler characteristic {}", info.euler));
    let mut got: BTreeMap<usize, usize> = BTreeMap::new();
    for f in sn.f.keys() {
        *got.entry(sn.face_verts(*f).len()).or_insert(0) += 1;
        let v = sn.face_verts(*f);
        c.check(v.iter().collect::<BTreeSet<_>>().len() == v.len(), &format!("face-repeats:{n}"), || format!("face {f} visits {v:?}"));
    }
    c.check(got == s.faces, &format!("face-sizes:{n}"), || format!("faces by number of corners: {got:?} instead of {:?}", s.faces));
    c.check(s.mesh.is_open() == false && s.mesh.check().is_ok(), &format!("check:{n}"), || format!("is_open or check() disagree: {:?}", s.mesh.check()));
    c.state(sn.hash());
    let p = pos(&s.mesh);
    if !s.flat {
        let vol = volume(&sn, &p);
        c.check(vol > 0.0, &format!("inside-out:{n}"), || format!("the signed volume is {vol}"));
        if s.convex {
            let o = mean(&p.values().copied().collect::<Vec<_>>());
            for f in sn.f.keys() {
                let q: Vec<P3> = sn.face_verts(*f).iter().map(|v| p[v]).collect();
                let d = dot(unit(newell(&q)), sub(mean(&q), o));
                c.check(d > 0.0, &format!("orientation:{n}"), || format!("face {f} with corners {q:?} is not counter-clockwise seen from outside"));
            }
        }
    }
    c.nontrivial();
}

/// Every expected position is taken by exactly one vertex.
pub fn match_set(c: &mut Case, what: &str, got: &BTreeMap<usize, P3>, want: &[P3], tol: f64) {
    c.check(got.len() == want.len(), &format!("positions:{what}"), || format!("{} positions instead of {}", got.len(), want.len()));
    // sort along a generic direction; candidates lie in a narrow window
    let dir = [0.6180339, 0.7310585, 0.2890123];
    let mut g: Vec<(f64, P3, bool)> = got.values().map(|p| (dot(*p, dir), *p, false)).collect();
    g.sort_by(|a, b| a.0.total_cmp(&b.0));
    let mut w: Vec<(f64, P3)> = want.iter().map(|p| (dot(*p, dir), *p)).collect();
    w.sort_by(|a, b| a.0.total_cmp(&b.0));
    for (k, p) in w {
        let i = g.partition_point(|x| x.0 < k - 3.0 * tol);
        let mut best: Option<(f64, usize)> = None;
        for (j, x) in g.iter().enumerate().skip(i) {
            if x.0 > k + 3.0 * tol {
                break;
            }
            if !x.2 {
                let d = len(sub(x.1, p));
                if best.is_none_or(|b| d < b.0) {
                    best = Some((d, j));
                }
            }
        }
        match best {
            Some((d, j)) if d <= tol => g[j].2 = true,
            _ => {
                let near = g.iter().map(|x| len(sub(x.1, p))).fold(f64::MAX, f64::min);
                c.fail(&format!("positions:{what}"), format!("no vertex at {p:?} (the nearest one is {near:e} away, tolerance {tol:e})"));
                return;
            }
        }
    }
    c.check(true, "", String::new);
}

fn check_dimensions<T: Space>(c: &mut Case, s: &Solid<T>) {
    let n = &s.name;
    c.phase(format!("measure {n}"));
    let Ok(sn) = snap(&s.mesh) else {
        c.fail(&format!("unreadable:{n}"), "the mesh has dangling links".into());
        return;
    };
    let p = pos(&s.mesh);
    let tol = 1e-9 * s.size;
    for (v, q) in &p {
        c.check(q.iter().all(|x| x.is_finite()), &format!("finite:{n}"), || format!("vertex {v} is at {q:?}"));
    }
    if let Some(at) = &s.at {
        match_set(c, n, &p, at, tol);
    }
    if let Some(r) = s.radius {
        for (v, q) in &p {
            c.check((len(*q) - r).abs() <= tol, &format!("radius:{n}"), || format!("vertex {v} has distance {} from the centre instead of {r}", len(*q)));
        }
        c.add("vertices-on-spheres", p.len() as u64);
    }
    if s.centred {
        let m = mean(&p.values().copied().collect::<Vec<_>>());
        c.check(len(m) <= tol, &format!("centre:{n}"), || format!("the centroid is {m:?}"));
    }
    if let Some(l) = s.edge {
        for (e, h) in &sn.e {
            let d = len(sub(p[&h.origin], p[&sn.e[&h.twin].origin]));
            c.check((d - l).abs() <= tol, &format!("edge-length:{n}"), || format!("half-edge {e} has length {d} instead of {l}"));
        }
        c.add("edges-measured", sn.e.len() as u64);
    }
    for f in sn.f.keys() {
        let q: Vec<P3> = sn.face_verts(*f).iter().map(|v| p[v]).collect();
        c.check(!s.planar || !sn.f[f].curved, &format!("flag:{n}"), || format!("face {f} is planar, but it is marked as curved: {q:?}"));
        if s.planar && q.len() > 3 {
            let z = unit(newell(&q));
            let o = mean(&q);
            for x in &q {
                let d = dot(sub(*x, o), z).abs();
                c.check(d <= tol, &format!("planar:{n}"), || format!("face {f} deviates {d} from a plane: {q:?}"));
            }
        }
        if s.regular {
            // all corners have the same distance from the centre of the face
            let o = mean(&q);
            let d0 = len(sub(q[0], o));
            for x in &q {
                c.check((len(sub(*x, o)) - d0).abs() <= tol, &format!("regular:{n}"), || format!("face {f} isn't regular: {q:?}"));
            }
        }
    }
    if let Some(vol) = s.volume {
        let got = volume(&sn, &p);
        let t = 1e-9 * s.size.powi(3);
        c.check((got - vol).abs() <= t, &format!("volume:{n}"), || format!("encloses the volume {got} instead of {vol}"));
    }
    c.nontrivial();
}

fn c09_t<T: Space>(c: &mut Case) {
    let name = SOLIDS[(c.index as usize + c.rng.below(SOLIDS.len())) % SOLIDS.len()];
    let s = solid::<T>(c, name);
    check_topology(c, &s);
    let h = snap(&s.mesh).map(|s| s.hash()).unwrap_or(0);
    c.fingerprint(vmon::mix(h, s.size.to_bits()));
    c.sample(|| format!("{name}: V={} E={} F={:?}", s.v, s.e, s.faces));
}
fn c09(c: &mut Case) {
    match c.rng.below(4) {
        0 => c09_t::<GT<u16, u16, u16>>(c),
        1 => c09_t::<GT<u32, u16, usize>>(c),
        _ => c09_t::<MeshType3d64PNU>(c),
    }
}

/// Several solids inserted into one mesh stay separate.
fn c09_insert(c: &mut Case) {
    type T = MeshType3d64PNU;
    let mut m = Mesh3d64::default();
    let k = c.rng.int(2, 5);
    let mut before: Option<(Snap, BTreeMap<usize, P3>)> = None;
    for i in 0..k {
        let n = c.rng.int(3, 8);
        let fr = gen::Frame::random(&mut c.rng, 1.0);
        let p2 = gen::convex(&mut c.rng, n);
        let base: Vec<P3> = p2.iter().map(|q| fr.at(*q)).collect();
        let top: Vec<P3> = base.iter().map(|p| addv(*p, fr.z)).collect();
        let (nv, ne, nf, name);
        c.phase("insert");
        let e = match c.rng.below(6) {
            0 => {
                (name, nv, ne, nf) = ("insert_prism", 2 * n, 3 * n, n + 2);
                c.log(format!("{name} {n}"));
                m.insert_prism(payloads(&base), 1.0)
            }
            1 => {
                (name, nv, ne, nf) = ("insert_antiprism", 2 * n, 4 * n, 2 * n + 2);
                c.log(format!("{name} {n}"));
                m.insert_antiprism(payloads(&base), 1.0)
            }
            2 => {
                (name, nv, ne, nf) = ("insert_antiprism_iter", 2 * n, 4 * n, 2 * n + 2);
                c.log(format!("{name} {n}"));
                m.insert_antiprism_iter(payloads(&base), payloads(&top))
            }
            3 => {
                (name, nv, ne, nf) = ("insert_pyramid", n + 1, 2 * n, n + 1);
                c.log(format!("{name} {n}"));
                m.insert_pyramid(payloads(&base), vp(addv(mean(&base), fr.z)))
            }
            4 => {
                (name, nv, ne, nf) = ("insert_frustum", 2 * n, 3 * n, n + 2);
                c.log(format!("{name} {n}"));
                m.insert_frustum(payloads(&base), payloads(&top), false)
            }
            _ => {
                (name, nv, ne, nf) = ("insert_dihedron", n, n, 2);
                c.log(format!("{name} {n}"));
                Make2dShape::<T>::insert_dihedron(&mut m, payloads(&base))
            }
        };
        let (s, info) = monitor(c, &m, name);
        let p = pos(&m);
        let (ov, oe, of) = before.as_ref().map(|(s, _)| (s.v.len(), s.e.len(), s.f.len())).unwrap_or((0, 0, 0));
        c.check(s.v.len() == ov + nv && s.e.len() == oe + 2 * ne && s.f.len() == of + nf, &format!("counts:{name}"), || format!("{name} added {} vertices, {} half-edges, {} faces", s.v.len() - ov, s.e.len() - oe, s.f.len() - of));
        c.check(info.boundary_edges == 0 && info.components == i + 1 && info.euler == 2 * (i as i64 + 1), &format!("components:{name}"), || format!("{info:?} after {} solids", i + 1));
        if let Some((b, bp)) = &before {
            let same = b.v.iter().all(|(v, r)| s.v.get(v) == Some(r) && p.get(v) == bp.get(v)) && b.e.iter().all(|(e, h)| s.e.get(e) == Some(h)) && b.f.iter().all(|(f, x)| s.f.get(f) == Some(x));
            c.check(same, &format!("disturbed:{name}"), || format!("{name} changed the solids that were in the mesh before"));
        }
        let e = ix(e);
        c.check(s.e.contains_key(&e) && before.as_ref().is_none_or(|(b, _)| !b.e.contains_key(&e)), &format!("returned:{name}"), || format!("{name} returned half-edge {e}"));
        c.count(name);
        before = Some((s, p));
    }
    c.nontrivial();
}

fn c10(c: &mut Case) {
    let name = SOLIDS[(c.index as usize + c.rng.below(SOLIDS.len())) % SOLIDS.len()];
    if c.rng.chance(0.25) {
        let s = solid::<GT<u32, u16, usize>>(c, name);
        check_dimensions(c, &s);
    } else {
        let s = solid::<MeshType3d64PNU>(c, name);
        check_dimensions(c, &s);
        c.fingerprint(vmon::mix(vmon::fnv(name.as_bytes()), s.size.to_bits()));
    }
}

/// Helper functions with closed formulas.
fn c10_formulas(c: &mut Case) {
    let r = c.rng.logf(1e-6, 1e6);
    let n = c.rng.int(3, 400);
    let near = |a: f64, b: f64| (a - b).abs() <= 1e-12 * b.abs();
    c.check(near(regular_polygon_sidelength(r, n), 2.0 * r * (PI / n as f64).sin()), "sidelength", || format!("side length of a {n}-gon with radius {r}"));
    c.check(near(regular_polygon_area(r, n), ngon_area(r, n)), "area", || format!("area of a {n}-gon with radius {r}"));
    let a: f64 = icosahedron_r2a(r);
    c.check(near(a, 4.0 * r / (10.0 + 2.0 * 5f64.sqrt()).sqrt()), "r2a", || format!("icosahedron_r2a({r}) = {a}"));
    c.check(near(icosahedron_a2r(a), r), "a2r", || format!("icosahedron_a2r isn't the inverse at {r}"));
    c.fingerprint(r.to_bits());
    c.nontrivial();
}

// --------------------------------------------------------------------------------------------

fn flat_positions<const D: usize>(c: &mut Case, n: usize) -> Vec<[f64; D]> {
    (0..n).map(|_| std::array::from_fn(|_| c.rng.f(-9.0, 9.0))).collect()
}

/// Inserts polygons, dihedra and stars into one mesh of dimension D.
macro_rules! flat_case {
    ($fname:ident, $mt:ty, $m:ty, $d:literal) => {
        fn $fname(c: &mut Case) {
            type T = $mt;
            let mut m = <$m>::default();
            let k = c.rng.int(1, 6);
            let mut old: Option<(Snap, BTreeMap<usize, [f64; $d]>)> = None;
            let get = |m: &$m| -> BTreeMap<usize, [f64; $d]> {
                MeshBasics::vertices(m)
                    .map(|v| {
                        let p = v.payload().pos();
                        (ix(v.id()), std::array::from_fn(|i| p[i]))
                    })
                    .collect()
            };
            let mk = |p: &[f64; $d]| -> VertexPayloadPNU<f64, $d> { HasPosition::<$d, VecN<f64, $d>>::from_pos(VecN::<f64, $d>::from(*p)) };
            for i in 0..k {
                let n = if c.rng.chance(0.8) { c.rng.int(3, 12) } else { { let k = c.rng.rare(80, 600); c.rng.int(3, k) } };
                let kind = c.rng.below(4);
                let name;
                let mut pts: Vec<[f64; $d]> = flat_positions(c, n);
                let mut tol = 0.0;
                c.phase("insert");
                let e = match kind {
                    0 => {
                        name = "polygon";
                        c.log(format!("insert_polygon {pts:?}"));
                        Make2dShape::<T>::insert_polygon(&mut m, pts.iter().map(mk))
                    }
                    1 => {
                        name = "dihedron";
                        c.log(format!("insert_dihedron {pts:?}"));
                        Make2dShape::<T>::insert_dihedron(&mut m, pts.iter().map(mk))
                    }
                    _ => {
                        let (a, b) = (c.rng.logf(1e-2, 1e2), c.rng.logf(1e-2, 1e2));
                        let b = if kind == 3 { a } else { b };
                        name = if kind == 3 { "regular_polygon" } else { "star" };
                        tol = 1e-5 * f64::max(a, b);
                        for (i, p) in pts.iter_mut().enumerate() {
                            *p = [0.0; $d];
                            let t = TAU * i as f64 / n as f64;
                            let r = if i % 2 == 0 { a } else { b };
                            p[0] = r * t.sin();
                            p[1] = r * t.cos();
                        }
                        c.log(format!("insert_regular_star({a}, {b}, {n})"));
                        if i == 0 && c.rng.chance(0.5) {
                            m = if kind == 3 { <$m as Make2dShape<T>>::regular_polygon::<$d>(a, n) } else { <$m as Make2dShape<T>>::regular_star::<$d>(a, b, n) };
                            // the outline starts at the first vertex
                            MeshBasics::edges(&m).find(|e| e.is_boundary_self() && ix(e.origin_id()) == 0).map(|e| e.id()).unwrap_or(IndexType::max())
                        } else {
                            Make2dShape::<T>::insert_regular_star::<$d>(&mut m, a, b, n)
                        }
                    }
                };
                let (s, info) = monitor(c, &m, name);
                let p = get(&m);
                let (ov, oe, of) = old.as_ref().map(|(s, _)| (s.v.len(), s.e.len(), s.f.len())).unwrap_or((0, 0, 0));
                let nf = if kind == 1 { 2 } else { 1 };
                c.check(s.v.len() == ov + n && s.e.len() == oe + 2 * n && s.f.len() == of + nf, &format!("counts:{name}"), || format!("{name} of {n} points added {} vertices, {} half-edges, {} faces", s.v.len() - ov, s.e.len() - oe, s.f.len() - of));
                c.check(info.components == i + 1, &format!("components:{name}"), || format!("{} components after {} shapes", info.components, i + 1));
                let e = ix(e);
                let ok = s.e.contains_key(&e) && (kind == 1 || s.e[&e].face == NO);
                c.check(ok, &format!("returned:{name}"), || format!("{name} returned {e}, which isn't on the outside boundary"));
                if !ok {
                    return;
                }
                // the boundary runs through the points in the given order
                let cy: Vec<[f64; $d]> = s.cycle(e).iter().map(|x| p[&s.e[x].origin]).collect();
                let same = |a: &[f64; $d], b: &[f64; $d]| (0..$d).all(|i| (a[i] - b[i]).abs() <= tol);
                let good = cy.len() == n && (0..n).all(|j| same(&cy[j], &pts[j]));
                c.check(good, &format!("outline:{name}"), || format!("the outline from the returned edge is {cy:?} instead of {pts:?}"));
                // the face is on the other side
                let t = s.e[&e].twin;
                c.check(s.e[&t].face != NO && s.cycle(t).len() == n, &format!("face:{name}"), || format!("the twin {t} has no face with {n} corners"));
                if kind == 1 {
                    c.check(s.e[&e].face != NO && s.e[&e].face != s.e[&t].face, "face:dihedron", || format!("both sides of {e} should have their own face"));
                }
                if kind >= 2 && $d == 2 {
                    let f: Vec<P2> = s.cycle(t).iter().map(|x| p[&s.e[x].origin]).map(|q| [q[0], q[1]]).collect();
                    c.check(area2(&f) > 0.0, &format!("clockwise:{name}"), || format!("the face is clockwise: {f:?}"));
                }
                if let Some((b, bp)) = &old {
                    let same = b.v.iter().all(|(v, r)| s.v.get(v) == Some(r) && p.get(v) == bp.get(v)) && b.e.iter().all(|(e, h)| s.e.get(e) == Some(h)) && b.f.iter().all(|(f, x)| s.f.get(f) == Some(x));
                    c.check(same, &format!("disturbed:{name}"), || format!("{name} changed the shapes that were in the mesh before"));
                }
                c.count(&format!("flat:{name}"));
                c.state(s.hash());
                old = Some((s, p));
            }
            c.nontrivial();
        }
    };
}
flat_case!(flat2, MeshType2d64PNU, Mesh2d64, 2);
flat_case!(flat3, MeshType3d64PNU, Mesh3d64, 3);
flat_case!(flat4, MeshTypeNd64PNU<4>, MeshNd64<4>, 4);

fn c11(c: &mut Case) {
    match c.rng.below(3) {
        0 => flat2(c),
        1 => flat3(c),
        _ => flat4(c),
    }
}

fn c11_iters(c: &mut Case) {
    if c.rng.chance(0.5) {
        let n = 2 * c.rng.int(2, if c.thorough { 100 } else { 40 });
        c.log(format!("generate_zigzag({n})"));
        let p: Vec<P2> = generate_zigzag::<Vec2<f64>>(n).map(|v| [v.x, v.y]).collect();
        c.check(p.len() == n, "zigzag-len", || format!("{} points instead of {n}", p.len()));
        c.check(is_simple(&p), "zigzag-simple", || format!("the zigzag with {n} points isn't a simple polygon: {p:?}"));
        c.count("zigzag");
        c.fingerprint(n as u64);
    } else {
        let a = c.rng.int(3, 40);
        let b = a + c.rng.below(20);
        let (lo, hi) = (c.rng.f(0.01, 1.0) as f32, c.rng.f(1.0, 5.0) as f32);
        c.log(format!("random_star({a}, {b}, {lo}, {hi})"));
        let p: Vec<P2> = random_star::<Vec2<f64>>(a, b, lo, hi).map(|v| [v.x, v.y]).collect();
        let n = p.len();
        c.check(n >= a && n <= b, "star-len", || format!("{n} points instead of {a}..={b}"));
        for (i, q) in p.iter().enumerate() {
            let r = q[0].hypot(q[1]);
            c.check(r >= lo as f64 * (1.0 - 1e-5) && r <= hi as f64 * (1.0 + 1e-5), "star-radius", || format!("point {i} has radius {r}"));
            let t = TAU * i as f64 / n as f64;
            let d = (q[0] - r * t.cos()).hypot(q[1] - r * t.sin());
            c.check(d <= 1e-4 * r, "star-angle", || format!("point {i} of {n} is {q:?}"));
        }
        c.count("random-star");
        c.fingerprint(vmon::mix(n as u64, p[0][0].to_bits()));
    }
    c.nontrivial();
}

pub fn props() -> Vec<Property> {
    let mut floors: Vec<(&'static str, u64)> = vec![("insert_prism", 50), ("insert_antiprism", 50), ("insert_pyramid", 50), ("insert_frustum", 50), ("insert_dihedron", 50), ("insert_antiprism_iter", 50)];
    floors.extend([("solid:cuboid", 50), ("solid:cylinder", 50), ("solid:dodecahedron", 50), ("solid:geodesic_octahedron", 50), ("solid:uv_sphere", 50), ("solid:antiprism", 50), ("solid:dihedron", 50), ("solid:regular_icosahedron", 50)]);
    vec![
        Property {
            id: "C09",
            workloads: vec![w("solids", 120000, 960000, c09), w("insert", 24000, 192000, c09_insert)],
            floors,
            rule: "A case builds one primitive solid (26 constructors, random sizes over six orders of magnitude, 3 to 120 corners, random polygons as base, random index types) or inserts several solids into one mesh; all links are read and judged. Non-trivial: a solid was built and judged.",
            assumptions: vec!["bases are simple planar polygons given counter-clockwise around the direction of extrusion; geodesic frequencies are powers of two"],
        },
        Property {
            id: "C10",
            workloads: vec![w("solids", 120000, 960000, c10), w("formulas", 6000, 48000, c10_formulas)],
            floors: vec![("vertices-on-spheres", 5000), ("edges-measured", 5000), ("solid:uniform_antiprism", 50), ("solid:prism", 50), ("solid:frustum", 50)],
            rule: "A case builds one primitive solid with random parameters and measures all vertices, edges and faces against closed formulas. Non-trivial: a solid was measured.",
            assumptions: vec!["relative tolerance 1e-9"],
        },
        Property {
            id: "C11",
            workloads: vec![w("flat", 120000, 960000, c11), w("outlines", 30000, 240000, c11_iters)],
            floors: vec![("flat:polygon", 500), ("flat:dihedron", 500), ("flat:star", 500), ("flat:regular_polygon", 500), ("zigzag", 200), ("random-star", 200)],
            rule: "A case inserts up to six polygons, dihedra, stars and regular polygons into one mesh of dimension 2, 3 or 4 and compares outline, order, faces and the rest of the mesh; or generates one zigzag or random star. Non-trivial: a shape was inserted and judged.",
            assumptions: vec!["the angles of stars are computed in single precision"],
        },
    ]
}
