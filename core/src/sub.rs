//! C15: subdivision of triangle meshes.

use crate::gen;
use crate::geo::*;
use crate::machine::*;
use crate::ops::{boundary_sets, canon, verts};
use crate::prims::{pos, vp, Space, SOLIDS};
use crate::snap::*;
use crate::types::*;
use procedural_modelling::extensions::nalgebra::*;
use procedural_modelling::operations::*;
use procedural_modelling::prelude::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use vmon::{w, Case, Property};

const NEW: u64 = 5_000_000;

/// Records every call and gives the new vertices unique tags.
struct Recorder<'a> {
    calls: &'a RefCell<Vec<[(usize, usize); 3]>>,
}
impl<'a, T: TaggedG> VertexInterpolator<3, T> for Recorder<'a> {
    fn call(&self, _: &T::Mesh, v: [(usize, T::V); 3]) -> T::VP {
        let mut c = self.calls.borrow_mut();
        c.push(v.map(|(w, v)| (w, ix(v))));
        T::VP::mk(NEW + c.len() as u64 - 1)
    }
}

type Key = (usize, usize);
fn key(a: usize, b: usize) -> Key {
    (a.min(b), a.max(b))
}

/// A random mesh whose faces are triangles: open or closed, several components and boundaries,
/// deleted faces, wire edges and isolated vertices.
fn triangles<T: TaggedG>(c: &mut Case) -> Machine<T> {
    let mut mc = Machine::<T>::new(30, true);
    if c.rng.chance(0.6) {
        let k = c.rng.int(1, 30);
        mc.history(c, k, ALL);
    }
    c.phase("setup");
    let mut tag = 100_000u64;
    let mut mk = |n: usize| -> Vec<T::VP> {
        (0..n)
            .map(|_| {
                tag += 1;
                T::VP::mk(tag)
            })
            .collect()
    };
    for _ in 0..c.rng.int(1, 3) {
        let n = { let k = c.rng.rare(9, 90); c.rng.int(3, k) };
        let e = mc.m.insert_loop(mk(n));
        let t = mc.m.edge(e).twin_id();
        c.log(format!("component with a loop of {n}"));
        match c.rng.below(5) {
            0 => {
                // bipyramid or single triangles
                mc.m.fill_hole_apex(e, mk(1).pop().unwrap());
                mc.m.fill_hole_apex(t, mk(1).pop().unwrap());
            }
            1 => {
                mc.m.fill_hole_apex(e, mk(1).pop().unwrap());
            }
            2 => {
                let top = mc.m.loft_tri_closed(e, mk(n));
                if c.rng.chance(0.5) {
                    mc.m.fill_hole_apex(top, mk(1).pop().unwrap());
                }
                if c.rng.chance(0.5) {
                    mc.m.fill_hole_apex(t, mk(1).pop().unwrap());
                }
            }
            3 => {
                let k = c.rng.int(1, n);
                mc.m.loft_tri(e, c.rng.chance(0.5), mk(k));
                if n == 3 {
                    mc.m.close_hole_default(t);
                }
            }
            _ => {
                if n == 3 {
                    mc.m.close_hole_default(e);
                    if c.rng.chance(0.3) {
                        mc.m.close_hole_default(t);
                    }
                } else {
                    mc.m.fill_hole_apex(t, mk(1).pop().unwrap());
                    mc.m.loft_tri_back_closed(e, mk(n));
                }
            }
        }
    }
    // isolated vertices
    if c.rng.chance(0.3) {
        mc.m.add_vertex(mk(1).pop().unwrap());
    }
    // only triangles; some holes
    let holes = if c.rng.chance(0.5) { c.rng.f(0.0, 0.5) } else { 0.0 };
    let s = match snap(&mc.m) {
        Ok(s) => s,
        Err((sig, msg)) => {
            c.fail(&format!("wf:{sig}:setup"), msg);
            return mc;
        }
    };
    let mut seen: BTreeSet<Vec<usize>> = BTreeSet::new();
    for f in s.f.keys() {
        // both sides of one triangle can't be subdivided without parallel edges
        let mut k = s.face_verts(*f);
        k.sort();
        if k.len() != 3 || !seen.insert(k) || c.rng.chance(holes) {
            mc.m.remove_face(T::F::new(*f));
            c.count("holes");
        }
    }
    // payloads of the faces
    let ids: Vec<T::F> = MeshBasics::faces(&mc.m).map(|f| f.id()).collect();
    for f in ids {
        let p = c.rng.below(1000) as u64 + 1;
        *FaceBasics::payload_mut(mc.m.face_mut(f)) = Pay(p);
    }
    match read::<T>(&mc.m) {
        Ok(r) => mc.a = r,
        Err((sig, msg)) => c.fail(&format!("wf:{sig}:setup"), msg),
    }
    mc
}

/// One level of subdivision on the abstract triangles.
struct Level {
    tris: Vec<([usize; 3], u64)>,
    /// edge of a face -> new vertex (as an index into the calls)
    mids: BTreeMap<Key, usize>,
}

fn c15_t<T: TaggedG>(c: &mut Case) {
    let mut mc = triangles::<T>(c);
    let before = mc.a.clone();
    let s0 = before.s.clone();
    let Ok(i0) = s0.wellformed() else { return };
    let k = if s0.f.len() > 60 { 1 } else { *c.rng.pick(&[0, 1, 1, 1, 2, 2, 3]) };
    let k = if s0.f.len() > 20 { k.min(2) } else { k };
    let k = if s0.f.len() <= 20 { c.rng.rare(k, 4) } else { k };
    let k = if s0.f.len() <= 4 { c.rng.rare(k, 5) } else { k };
    let calls = RefCell::new(vec![]);
    let freq = c.rng.chance(0.6);
    c.phase("subdivide");
    if freq {
        c.log(format!("subdivision_frequency({}, 0) of {} faces", 1 << k, s0.f.len()));
        mc.m.subdivision_frequency(SubdivisionDescription::new(1 << k, 0), Recorder { calls: &calls });
    } else {
        c.log(format!("{k} times loop_subdivision of {} faces", s0.f.len()));
        for _ in 0..k {
            mc.m.loop_subdivision(&Recorder { calls: &calls });
        }
    }
    let what = if freq { "frequency" } else { "loop" };
    let real = match read::<T>(&mc.m) {
        Ok(r) => r,
        Err((sig, msg)) => {
            c.fail(&format!("wf:{sig}:{what}"), msg);
            return;
        }
    };
    let (s, i1) = monitor(c, &mc.m, what);
    let calls = calls.into_inner();
    // the ids of the new vertices
    let mut id: BTreeMap<usize, usize> = BTreeMap::new();
    for (v, t) in &real.vp {
        if *t >= NEW {
            let k = (*t - NEW) as usize;
            if id.insert(k, *v).is_some() || before.s.v.contains_key(v) {
                c.fail(&format!("vertices:{what}"), format!("the vertex of call {k} was inserted twice or replaced an old one"));
            }
        } else {
            c.check(before.vp.get(v) == Some(t), &format!("vertex-payload:{what}"), || format!("vertex {v} had {:?}, now {t}", before.vp.get(v)));
        }
    }
    c.check(id.len() == calls.len() && s.v.len() == s0.v.len() + calls.len(), &format!("vertices:{what}"), || {
        format!("{} calls, {} of their vertices are in the mesh, which went from {} to {} vertices", calls.len(), id.len(), s0.v.len(), s.v.len())
    });
    // replay the levels
    let mut lv = Level { tris: s0.f.keys().map(|f| (<[usize; 3]>::try_from(s0.face_verts(*f)).unwrap(), before.fp[f])).collect(), mids: BTreeMap::new() };
    let mut at = 0;
    let mut split: Vec<BTreeMap<Key, usize>> = vec![];
    for _ in 0..k {
        let mut opposite: BTreeMap<Key, BTreeSet<usize>> = BTreeMap::new();
        for ([a, b, d], _) in &lv.tris {
            opposite.entry(key(*a, *b)).or_default().insert(*d);
            opposite.entry(key(*b, *d)).or_default().insert(*a);
            opposite.entry(key(*d, *a)).or_default().insert(*b);
        }
        lv.mids.clear();
        for _ in 0..opposite.len() {
            let Some(call) = calls.get(at) else {
                c.fail(&format!("calls:{what}"), format!("there are fewer calls of the interpolator than edges ({})", calls.len()));
                return;
            };
            let ones: Vec<usize> = call.iter().filter(|x| x.0 == 1).map(|x| x.1).collect();
            let zero: Vec<usize> = call.iter().filter(|x| x.0 == 0).map(|x| x.1).collect();
            let ok = ones.len() == 2 && zero.len() == 1 && opposite.get(&key(ones[0], ones[1])).is_some_and(|o| o.contains(&zero[0]));
            c.check(ok, &format!("weights:{what}"), || format!("call {at} of the interpolator with {call:?} isn't the middle of an edge of a triangle"));
            let dup = lv.mids.insert(key(ones[0], ones[1]), id[&at]);
            c.check(dup.is_none(), &format!("calls:{what}"), || format!("edge {ones:?} got two new vertices"));
            at += 1;
        }
        let m = |a, b| lv.mids[&key(a, b)];
        let mut n = vec![];
        for ([a, b, d], p) in &lv.tris {
            let (ab, bd, da) = (m(*a, *b), m(*b, *d), m(*d, *a));
            n.extend([([*a, ab, da], *p), ([ab, *b, bd], *p), ([da, bd, *d], *p), ([ab, bd, da], *p)]);
        }
        lv.tris = n;
        split.push(lv.mids.clone());
    }
    c.check(at == calls.len(), &format!("calls:{what}"), || format!("{} calls of the interpolator instead of {at}", calls.len()));
    let mut want: Vec<(Vec<usize>, u64)> = lv.tris.iter().map(|(t, p)| (canon(t), *p)).collect();
    want.sort();
    let mut got: Vec<(Vec<usize>, u64)> = s.f.keys().map(|f| (canon(&s.face_verts(*f)), real.fp[f])).collect();
    got.sort();
    if got != want {
        let (a, b): (BTreeSet<_>, BTreeSet<_>) = (got.iter().collect(), want.iter().collect());
        c.fail(&format!("faces:{what}"), format!("{} faces instead of {}; missing {:?}, unexpected {:?}", got.len(), want.len(), b.difference(&a).take(3).collect::<Vec<_>>(), a.difference(&b).take(3).collect::<Vec<_>>()));
    }
    c.check(true, "", String::new);
    // boundaries, with every edge of a face split
    let cut = |cy: &Vec<usize>| -> Vec<usize> {
        let mut cy = cy.clone();
        for m in &split {
            let mut n = vec![];
            for j in 0..cy.len() {
                n.push(cy[j]);
                if let Some(x) = m.get(&key(cy[j], cy[(j + 1) % cy.len()])) {
                    n.push(*x);
                }
            }
            cy = n;
        }
        canon(&cy)
    };
    let mut want: Vec<Vec<usize>> = s0.boundary_cycles().iter().map(|e| cut(&verts(&s0, e))).collect();
    want.sort();
    let got = boundary_sets(&s);
    c.check(got == want, &format!("boundary:{what}"), || format!("boundaries {got:?} instead of {want:?}"));
    c.check(i0.euler == i1.euler && i0.components == i1.components && i0.isolated == i1.isolated, &format!("euler:{what}"), || format!("{i0:?} became {i1:?}"));
    c.state(s.hash());
    c.count(&format!("op:{what}"));
    c.count(&format!("levels:{k}"));
    if s0.boundary_cycles().len() > 1 {
        c.count("several-boundaries");
    }
    if k > 0 && !s0.f.is_empty() {
        c.nontrivial();
    }
}

fn c15(c: &mut Case) {
    match c.rng.below(3) {
        0 => c15_t::<TT<usize, usize, usize>>(c),
        1 => c15_t::<TT<u32, u16, u16>>(c),
        _ => c15_t::<GT<u32, u32, u32>>(c),
    }
}

/// The interpolators of the library.
fn c15_geo(c: &mut Case) {
    type T = MeshType3d64PNU;
    let name = *c.rng.pick(&["regular_tetrahedron", "regular_octahedron", "regular_icosahedron", "pyramid", "hole"]);
    let mut m: Mesh3d64 = if name == "hole" || name == "pyramid" {
        // some triangles in space
        let n = c.rng.int(3, 8);
        let fr = gen::Frame::random(&mut c.rng, 1.0);
        let base: Vec<P3> = gen::convex(&mut c.rng, n).iter().map(|q| fr.at(*q)).collect();
        let mut m = Mesh3d64::default();
        let e = m.insert_loop(base.iter().map(|p| vp(*p)));
        let apex = addv(mean(&base), mulv(fr.z, c.rng.f(0.2, 2.0)));
        m.fill_hole_apex(e, vp(apex));
        if name == "pyramid" {
            let t = m.edge(e).twin_id();
            m.fill_hole_apex(t, vp(addv(mean(&base), mulv(fr.z, c.rng.f(-2.0, -0.2)))));
        }
        m
    } else {
        debug_assert!(SOLIDS.contains(&name));
        let r = c.rng.logf(1e-2, 1e2);
        match name {
            "regular_tetrahedron" => Mesh3d64::regular_tetrahedron(r),
            "regular_octahedron" => Mesh3d64::regular_octahedron(r),
            _ => Mesh3d64::regular_icosahedron(r),
        }
    };
    geo_t::<T>(c, &mut m, name);
}

fn geo_t<T: Space>(c: &mut Case, m: &mut HalfEdgeMeshImpl<T>, name: &str)
where
    HalfEdgeMeshImpl<T>: MeshTrait<T = T>,
{
    let s0 = snap(m).unwrap_or_default();
    let p0 = pos(m);
    let size = p0.values().flatten().fold(0.0f64, |a, b| a.max(b.abs()));
    let k = c.rng.int(0, 3);
    let k = c.rng.rare(k, 4);
    let slerp = c.rng.chance(0.5);
    let mut centre = mean(&p0.values().copied().collect::<Vec<_>>());
    if c.rng.chance(0.5) {
        centre = addv(centre, mulv([c.rng.normal(), c.rng.normal(), c.rng.normal()], 0.05 * size));
    }
    let radius = c.rng.logf(0.5, 2.0) * size;
    c.log(format!("{name}, {k} levels, slerp={slerp}"));
    c.phase("subdivide");
    let d = SubdivisionDescription::new(1 << k, 0);
    c.check(d.b() == 1 << k && d.c() == 0 && d.frequency() == 1 << k && d.triangulation_number() == 1 << (2 * k), "description", || format!("{d:?}"));
    // any description (b, c) has frequency b + c and triangulation number b^2 + bc + c^2
    let (b2, c2) = (c.rng.int(1, 1000), c.rng.int(0, 1000));
    let e = SubdivisionDescription::new(b2, c2);
    c.check(e.b() == b2 && e.c() == c2 && e.frequency() == b2 + c2 && e.triangulation_number() == b2 * b2 + b2 * c2 + c2 * c2, "description", || format!("{e:?} has frequency {} and number {}", e.frequency(), e.triangulation_number()));
    if slerp {
        m.subdivision_frequency(d, SlerpVertexInterpolator::<3, T>::new(Vec3::new(centre[0], centre[1], centre[2]), radius));
    } else {
        m.subdivision_frequency(d, LinearVertexInterpolator::<3> {});
    }
    let (s, _) = monitor(c, m, "geometric");
    let p = pos(m);
    for (v, q) in &p0 {
        c.check(p.get(v) == Some(q), "moved:geometric", || format!("vertex {v} moved from {q:?} to {:?}", p.get(v)));
    }
    // expected triangles by position
    let mut tris: Vec<[P3; 3]> = s0.f.keys().map(|f| s0.face_verts(*f)).map(|v| [p0[&v[0]], p0[&v[1]], p0[&v[2]]]).collect();
    for _ in 0..k {
        let mut n = vec![];
        let mid = |a: P3, b: P3| {
            if slerp {
                let (x, y) = (unit(sub(a, centre)), unit(sub(b, centre)));
                addv(centre, mulv(unit(addv(x, y)), radius))
            } else {
                mulv(addv(a, b), 0.5)
            }
        };
        for [a, b, d] in tris {
            let (ab, bd, da) = (mid(a, b), mid(b, d), mid(d, a));
            n.extend([[a, ab, da], [ab, b, bd], [da, bd, d], [ab, bd, da]]);
        }
        tris = n;
    }
    // compare as sets of (centroid, vector area)
    let sig = |t: &[P3]| -> [f64; 6] {
        let (m, n) = (mean(t), newell(t));
        [m[0], m[1], m[2], n[0] / size, n[1] / size, n[2] / size]
    };
    let mut got: Vec<[f64; 6]> = s.f.keys().map(|f| sig(&s.face_verts(*f).iter().map(|v| p[v]).collect::<Vec<_>>())).collect();
    let want: Vec<[f64; 6]> = tris.iter().map(|t| sig(t)).collect();
    c.check(got.len() == want.len(), "faces:geometric", || format!("{} faces instead of {}", got.len(), want.len()));
    let dir = [0.618, 0.731, 0.289, 0.113, 0.412, 0.937];
    let proj = |x: &[f64; 6]| x.iter().zip(dir).map(|(a, b)| a * b).sum::<f64>();
    got.sort_by(|a, b| proj(a).total_cmp(&proj(b)));
    let mut used = vec![false; got.len()];
    let tol = 1e-9 * size.max(radius);
    for x in &want {
        let k = proj(x);
        let i = got.partition_point(|g| proj(g) < k - 6.0 * tol);
        let j = (i..got.len()).take_while(|j| proj(&got[*j]) <= k + 6.0 * tol).find(|j| !used[*j] && got[*j].iter().zip(x).all(|(a, b)| (a - b).abs() <= tol));
        match j {
            Some(j) => used[j] = true,
            None => {
                c.fail(if slerp { "positions:slerp" } else { "positions:linear" }, format!("no triangle of the subdivided mesh has the centroid and vector area {x:?}"));
                return;
            }
        }
    }
    c.count(if slerp { "slerp" } else { "linear" });
    c.fingerprint(p.values().fold(k as u64, |a, q| vmon::mix(a, q[0].to_bits())));
    c.nontrivial();
}

pub fn props() -> Vec<Property> {
    vec![Property {
        id: "C15",
        workloads: vec![w("topology", 36000, 288000, c15), w("interpolators", 9000, 72000, c15_geo)],
        floors: vec![("op:frequency", 1000), ("op:loop", 1000), ("levels:2", 500), ("levels:3", 100), ("levels:4", 20), ("several-boundaries", 500), ("slerp", 500), ("linear", 500), ("holes", 1000)],
        rule: "A case is a random triangle mesh (open, closed, several components, holes, wires, isolated vertices) that is subdivided with a recording interpolator: calls, faces, boundaries and payloads are compared with the abstract pattern; or a solid subdivided by the interpolators of the library with all positions compared. Non-trivial: at least one face and one level.",
        assumptions: vec!["no two faces have the same corners (both sides of a triangle)", "frequencies are powers of two and c = 0; others are documented as not implemented"],
    }]
}
