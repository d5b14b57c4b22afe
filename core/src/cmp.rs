//! C21 comparison of meshes, C22 graph queries.

use crate::gen;
use crate::geo::*;
use crate::machine::*;
use crate::ops::canon;
use crate::prims::{pos, solid, vp, SOLIDS};
use crate::snap::*;
use crate::types::*;
use procedural_modelling::extensions::nalgebra::*;
use procedural_modelling::prelude::*;
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use vmon::{w, Case, Property, Rng};

type M3 = Mesh3d64;
type T3 = MeshType3d64PNU;
type Diff<T> = MeshEquivalenceDifference<T, T>;

// ---------------------------------------------------------------------------------------- C21

/// The same ids and links; where a vertex or face keeps its representative doesn't matter.
fn same_ids(a: &Snap, b: &Snap) -> bool {
    a.e == b.e && a.v.keys().eq(b.v.keys()) && a.f.keys().eq(b.f.keys())
}
/// The same vertices by position, edges and faces.
fn same_shape(a: &Snap, pa: &BTreeMap<usize, P3>, b: &Snap, pb: &BTreeMap<usize, P3>, eps: f64) -> bool {
    if a.v.len() != b.v.len() || a.e.len() != b.e.len() || a.f.len() != b.f.len() {
        return false;
    }
    let mut map = BTreeMap::new();
    for (v, p) in pa {
        match pb.iter().find(|(_, q)| len(sub(*p, **q)) <= eps) {
            Some((w, _)) => map.insert(*v, *w),
            None => return false,
        };
    }
    if map.values().collect::<BTreeSet<_>>().len() != map.len() {
        return false;
    }
    let edges = |s: &Snap, f: &dyn Fn(usize) -> usize| -> BTreeSet<(usize, usize)> { s.e.iter().map(|(i, e)| (f(e.origin), f(s.target(*i)))).collect() };
    let faces = |s: &Snap, f: &dyn Fn(usize) -> usize| -> BTreeSet<Vec<usize>> { s.f.keys().map(|i| canon(&s.face_verts(*i).into_iter().map(f).collect::<Vec<_>>())).collect() };
    let (to, id) = (|v: usize| map[&v], |v: usize| v);
    edges(a, &to) == edges(b, &id) && faces(a, &to) == faces(b, &id)
}

/// The reported kind of difference must be true.
fn truthful<T: MeshType>(c: &mut Case, what: &str, d: &Diff<T>, a: &Snap, b: &Snap) {
    use MeshEquivalenceDifference::*;
    let ok = match d {
        DifferentNumberOfVertices => a.v.len() != b.v.len(),
        DifferentNumberOfEdges => a.e.len() != b.e.len(),
        DifferentNumberOfFaces => a.f.len() != b.f.len(),
        NoCorrespondingEdge(x) | DifferentEdges(x, _) => a.e.contains_key(&ix(*x)),
        NoCorrespondingFace(x) | DifferentFaces(x, _) => a.f.contains_key(&ix(*x)),
        DifferentVertices(x, _) => a.v.contains_key(&ix(*x)),
        _ => true,
    };
    c.check(ok && d.eq() != d.ne(), &format!("reason:{what}"), || format!("{d:?} was reported"));
}

fn compare<T>(c: &mut Case, a: &HalfEdgeMeshImpl<T>, b: &HalfEdgeMeshImpl<T>, what: &str)
where
    T: TaggedG<VP = VertexPayloadPNU<f64, 3>>,
{
    let eps = 1e-6;
    let (Ok(ra), Ok(rb)) = (read::<T>(a), read::<T>(b)) else { return };
    let (pa, pb) = (pos(a), pos(b));
    c.phase(format!("trivial {what}"));
    let want = same_ids(&ra.s, &rb.s);
    let near = want && pa.iter().all(|(v, p)| len(sub(*p, pb[v])) <= eps);
    let payloads = want && ra.vp == rb.vp && ra.ep == rb.ep && ra.fp == rb.fp;
    let iso = same_shape(&ra.s, &pa, &rb.s, &pb, eps);
    c.count(if want { "same-ids" } else { "different-ids" });
    c.count(if near { "same-positions" } else { "different-positions" });
    c.count(if iso { "isomorphic" } else { "not-isomorphic" });
    for (k, x, y, sx, sy) in [("", a, b, &ra.s, &rb.s), ("reversed:", b, a, &rb.s, &ra.s)] {
        let d = x.is_trivially_isomorphic(y);
        c.check(d.eq() == want, &format!("ids:{k}{what}"), || format!("is_trivially_isomorphic reports {d:?}, but ids and links are {}", if want { "the same" } else { "different" }));
        truthful(c, "ids", &d, sx, sy);
        let d = x.is_trivially_isomorphic_pos::<3, f64, Vec3<f64>>(y, eps);
        c.check(d.eq() == near, &format!("pos:{k}{what}"), || format!("is_trivially_isomorphic_pos reports {d:?}, but ids, links and positions are {}", if near { "the same" } else { "different" }));
        truthful(c, "pos", &d, sx, sy);
        let d = x.is_trivially_isomorphic_ex(y, |v, w| v.payload().tag() == w.payload().tag(), |v, w| EdgeBasics::payload(v) == EdgeBasics::payload(w), |v, w| FaceBasics::payload(v) == FaceBasics::payload(w));
        c.check(d.eq() == payloads, &format!("payloads:{k}{what}"), || format!("is_trivially_isomorphic_ex reports {d:?}, but ids, links and payloads are {}", if payloads { "the same" } else { "different" }));
        let d = x.is_isomorphic_pos::<3, f64, Vec3<f64>>(y, eps);
        c.check(d.eq() == iso, &format!("iso:{k}{what}"), || format!("is_isomorphic_pos reports {d:?}, but the meshes are {}isomorphic", if iso { "" } else { "not " }));
        truthful(c, "iso", &d, sx, sy);
        let d = x.is_isomorphic_by_pos::<f64, 3, Vec3<f64>, T>(y, eps);
        c.check(d.eq() == iso, &format!("iso-by:{k}{what}"), || format!("is_isomorphic_by_pos reports {d:?}"));
    }
    // the map between the vertices
    c.phase("map");
    let m = a.find_payload_isomorphism::<T, _>(b, |v, w| {
        let (p, q) = (v.payload().pos(), w.payload().pos());
        len([p.x - q.x, p.y - q.y, p.z - q.z]) <= eps
    });
    let all = pa.values().all(|p| pb.values().any(|q| len(sub(*p, *q)) <= eps));
    match m {
        Err(e) => c.check(!all, "map-missing", || format!("no map was found: {e}")),
        Ok(m) => {
            c.check(all, "map-invented", || "every vertex was mapped".into());
            c.check(m.iter().count() == pa.len(), "map-size", || format!("{} pairs", m.iter().count()));
            for (v, w) in m.iter() {
                c.check(len(sub(pa[&ix(*v)], pb[&ix(*w)])) <= eps && m.has(*v) && m.get(*v) == Some(w), "map-pair", || format!("vertex {v:?} is mapped to {w:?}"));
            }
        }
    }
    c.state(ra.s.hash() ^ rb.s.hash().rotate_left(7));
}

fn c21_t<T>(c: &mut Case)
where
    T: TaggedG<VP = VertexPayloadPNU<f64, 3>>,
{
    let limit = size(c, &[5, 8, 14, 24]);
    let mut a = Machine::<T>::new(limit, true);
    let steps = c.rng.int(5, 50);
    a.history(c, steps, ALL);
    let mut b = a.fork();
    let what = match c.rng.below(10) {
        0 => "clone",
        1 | 2 => {
            while !b.step(c, ALL) {}
            "one-step"
        }
        3 => {
            let k = c.rng.int(2, 6);
            b.history(c, k, ALL);
            "some-steps"
        }
        4 => {
            // parallel histories reach the same counts in different ways
            let k = c.rng.int(1, 4);
            let ops = *c.rng.pick(&[REUSE, FLIP, ALL]);
            a.history(c, k, ops);
            b.history(c, k, ops);
            "diverged"
        }
        5 => {
            let k = c.rng.int(1, 4);
            b.history(c, k, FLIP);
            "flips"
        }
        6 => {
            let k = c.rng.int(1, 5);
            b.history(c, k, &[(Op::RemoveFace, 1), (Op::CloseHole, 1)]);
            "churn"
        }
        7 => {
            let d = *c.rng.pick(&[1e-8, 1e-7, 1e-5, 1e-3, 1.0]);
            let n = b.a.s.v.len();
            if n > 0 {
                let k = c.rng.below(n);
                let axis = c.rng.below(3);
                let v = MeshBasics::vertices_mut(&mut b.m).nth(k).unwrap();
                let mut p = *v.payload().pos();
                p[axis] += d;
                VertexBasics::payload_mut(v).set_pos(p);
                c.log(format!("coordinate {axis} of vertex {k} moved by {d}"));
            }
            "moved"
        }
        8 => {
            b.run(c, Op::Payloads);
            "payloads"
        }
        _ => {
            b = Machine::<T>::new(limit, true);
            b.history(c, steps, ALL);
            "independent"
        }
    };
    c.count(what);
    compare(c, &a.m, &a.m, "self");
    compare(c, &a.m, &b.m, what);
    if a.a.s.e.len() >= 4 {
        c.nontrivial();
    }
}
fn c21_ids(c: &mut Case) {
    match c.rng.below(2) {
        0 => c21_t::<GT<usize, usize, usize>>(c),
        _ => c21_t::<GT<u16, u32, u8>>(c),
    }
}

/// Two wire stars differ only in the order in which the edges were attached.
fn c21_wheels(c: &mut Case) {
    type T = GT<usize, usize, usize>;
    c.phase("wheels");
    let k = { let k = c.rng.rare(7, 150); c.rng.int(3, k) };
    let mut build = |c: &mut Case, ins: &[usize]| {
        // the same ids everywhere, but other places around the center
        let mut m = HalfEdgeMeshImpl::<T>::new();
        let p = |i: usize| <VertexPayloadPNU<f64, 3> as VTag>::mk(i as u64);
        let (v0, _) = m.add_isolated_edge_default(p(0), p(1));
        let mut out = vec![m.vertex(v0).edge_id(&m)];
        for i in 2..=k {
            let at: usize = out[ins[i] % out.len()];
            // the new edge comes after `at` around the center
            let prev = m.edge(at).prev_id();
            let (_, e, _) = m.add_vertex_via_edge_default(prev, at, p(i));
            out.push(e);
        }
        let _ = &c;
        m
    };
    let x: Vec<usize> = (0..=k).map(|_| c.rng.below(100)).collect();
    let mut y = x.clone();
    if c.rng.chance(0.8) {
        let i = c.rng.int(3, k);
        y[i] = c.rng.below(100);
    }
    c.log(format!("{x:?} {y:?}"));
    let (a, b) = (build(c, &x), build(c, &y));
    compare(c, &a, &b, "wheels");
    c.nontrivial();
}

/// Rebuilds the surface from its faces, in random order. Every face must share one chain of edges with the faces so far.
pub fn shell<T: HalfEdgeImplMeshType + MeshTypeHalfEdge<Mesh = HalfEdgeMeshImpl<T>> + MeshType<V = usize, E = usize, F = usize>>(r: &mut Rng, faces: &[Vec<usize>], mut vp: impl FnMut(usize) -> T::VP) -> Option<HalfEdgeMeshImpl<T>>
where
    T::EP: DefaultEdgePayload,
    T::FP: DefaultFacePayload,
{
    let mut m = HalfEdgeMeshImpl::<T>::default();
    let mut id: BTreeMap<usize, usize> = BTreeMap::new();
    let mut todo: Vec<Vec<usize>> = faces.to_vec();
    let k = r.below(todo.len());
    let mut f = todo.swap_remove(k);
    f.rotate_left(r.below(faces[k].len()) % faces[k].len());
    let (a, b) = m.add_isolated_edge_default(vp(f[0]), vp(f[1]));
    id.insert(f[0], a);
    id.insert(f[1], b);
    for i in 2..f.len() {
        let v = m.add_vertex_via_vertex_default(id[&f[i - 1]], vp(f[i])).0;
        id.insert(f[i], v);
    }
    m.close_face_vertices_default(id[&f[f.len() - 2]], id[&f[f.len() - 1]], id[&f[0]], false);
    while !todo.is_empty() {
        let mut found = None;
        let mut order: Vec<usize> = (0..todo.len()).collect();
        r.shuffle(&mut order);
        for k in order {
            let f = &todo[k];
            let n = f.len();
            let has: Vec<bool> = (0..n)
                .map(|i| match (id.get(&f[i]), id.get(&f[(i + 1) % n])) {
                    (Some(a), Some(b)) => m.shared_edge_id(*a, *b).is_some(),
                    _ => false,
                })
                .collect();
            let count = has.iter().filter(|x| **x).count();
            if count == n {
                if todo.len() == 1 {
                    found = Some((k, 0, n));
                    break;
                }
                continue;
            }
            let starts: Vec<usize> = (0..n).filter(|i| has[*i] && !has[(*i + n - 1) % n]).collect();
            if starts.len() != 1 {
                continue;
            }
            let known = f.iter().filter(|v| id.contains_key(v)).count();
            if known == count + 1 {
                found = Some((k, starts[0], count));
                break;
            }
        }
        let (k, s, count) = found?;
        let mut f = todo.swap_remove(k);
        f.rotate_left(s);
        let n = f.len();
        if count == n {
            let e = m.shared_edge_id(id[&f[0]], id[&f[1]])?;
            m.close_hole_default(e);
            continue;
        }
        for i in count + 1..n {
            let v = m.add_vertex_via_vertex_default(id[&f[i - 1]], vp(f[i])).0;
            id.insert(f[i], v);
        }
        m.close_face_vertices_default(id[&f[n - 2]], id[&f[n - 1]], id[&f[0]], false);
    }
    Some(m)
}

/// `is_isomorphic` with the map of the vertices and comparisons given by the caller: one element may be declared different.
#[allow(clippy::too_many_arguments)]
fn given_map(c: &mut Case, a: &M3, b: &M3, sa: &Snap, sb: &Snap, pa: &BTreeMap<usize, P3>, pb: &BTreeMap<usize, P3>, iso: bool, eps: f64, what: &str) {
    use std::cell::RefCell;
    use MeshEquivalenceDifference::*;
    let mut map = IndexIsomorphism::<usize, usize>::new();
    let mut to = BTreeMap::new();
    for (v, q) in pa {
        let Some((x, _)) = pb.iter().find(|(_, r)| len(sub(*q, **r)) <= eps) else { return };
        map.insert(*v, *x);
        to.insert(*v, *x);
    }
    if to.values().collect::<BTreeSet<_>>().len() != to.len() {
        return;
    }
    let kind = c.rng.below(4);
    let bad = match kind {
        1 => c.rng.pick(&sa.v.keys().copied().collect::<Vec<_>>()).to_owned(),
        2 => c.rng.pick(&sa.e.keys().copied().collect::<Vec<_>>()).to_owned(),
        3 if !sa.f.is_empty() => c.rng.pick(&sa.f.keys().copied().collect::<Vec<_>>()).to_owned(),
        _ => NO,
    };
    let seen = RefCell::new((BTreeSet::new(), BTreeSet::new(), BTreeSet::new()));
    c.phase(format!("given map {what}"));
    let d = a.is_isomorphic::<T3, _, _, _>(
        b,
        &map,
        |v, w| {
            seen.borrow_mut().0.insert((v.id(), w.id()));
            !(kind == 1 && v.id() == bad)
        },
        |v, w| {
            seen.borrow_mut().1.insert((EdgeBasics::id(v), EdgeBasics::id(w)));
            !(kind == 2 && EdgeBasics::id(v) == bad)
        },
        |v, w| {
            seen.borrow_mut().2.insert((FaceBasics::id(v), FaceBasics::id(w)));
            !(kind == 3 && FaceBasics::id(v) == bad)
        },
    );
    let (vs, es, fs) = seen.into_inner();
    let want = iso && bad == NO;
    c.check(d.eq() == want, &format!("given:{what}"), || format!("is_isomorphic reports {d:?}, but the meshes are {}isomorphic and element {bad} of kind {kind} differs", if iso { "" } else { "not " }));
    // only corresponding elements are compared, and all of them when the meshes are equivalent
    let ve = |i: usize, j: usize| to[&sa.e[&i].origin] == sb.e[&j].origin && to[&sa.target(i)] == sb.target(j);
    let fe = |i: usize, j: usize| canon(&sa.face_verts(i).iter().map(|v| to[v]).collect::<Vec<_>>()) == canon(&sb.face_verts(j));
    c.check(vs.iter().all(|(i, j)| to[i] == *j) && es.iter().all(|(i, j)| ve(*i, *j)) && fs.iter().all(|(i, j)| fe(*i, *j)), "given-pairs", || "elements which don't correspond to each other were compared".into());
    if d.eq() {
        c.check(vs.len() == sa.v.len() && es.len() == sa.e.len() && fs.len() == sa.f.len(), "given-all", || format!("compared {} of {} vertices, {} of {} edges, {} of {} faces", vs.len(), sa.v.len(), es.len(), sa.e.len(), fs.len(), sa.f.len()));
    }
    if iso && bad != NO {
        let ok = match &d {
            DifferentVertices(i, j) => kind == 1 && *i == bad && to[i] == *j,
            DifferentEdges(i, j) => kind == 2 && *i == bad && ve(*i, *j),
            DifferentFaces(i, j) => kind == 3 && *i == bad && fe(*i, *j),
            _ => false,
        };
        c.check(ok, "given-reason", || format!("element {bad} of kind {kind} differs, but {d:?} was reported"));
        c.count(["", "given-vertex", "given-edge", "given-face"][kind]);
    }
}

fn c21_renumbered(c: &mut Case) {
    c.phase("setup");
    let name = *c.rng.pick(SOLIDS);
    let s = solid::<T3>(c, name);
    c.phase("setup");
    let Ok(sn) = snap(&s.mesh) else { return };
    if sn.v.len() > 120 {
        return;
    }
    let p = pos(&s.mesh);
    let faces: Vec<Vec<usize>> = sn.f.keys().map(|f| sn.face_verts(*f)).collect();
    let ids: Vec<usize> = p.keys().copied().collect();
    let min = p.iter().flat_map(|(i, a)| p.iter().filter(move |(j, _)| *j > i).map(move |(_, b)| len(sub(*a, *b)))).fold(f64::MAX, f64::min);
    if faces.iter().any(|f| f.len() < 3) || min < 1e-6 * s.size {
        return;
    }
    let eps = min * 0.1;
    let mut faces2 = faces.clone();
    let mut p2 = p.clone();
    let what = match c.rng.below(8) {
        0 | 1 => "same",
        2 => {
            for q in p2.values_mut() {
                *q = addv(*q, mulv(unit([c.rng.f(-1.0, 1.0), c.rng.f(-1.0, 1.0), 0.1]), 0.3 * eps));
            }
            "jittered"
        }
        3 => {
            let v = *c.rng.pick(&ids);
            let q = addv(p[&v], mulv(unit([c.rng.f(-1.0, 1.0), c.rng.f(-1.0, 1.0), 0.1]), 2.0 * eps));
            p2.insert(v, q);
            "moved"
        }
        4 => {
            let (v, w) = (*c.rng.pick(&ids), *c.rng.pick(&ids));
            p2.insert(v, p[&w]);
            p2.insert(w, p[&v]);
            "swapped"
        }
        5 => {
            for f in &mut faces2 {
                f.reverse();
            }
            "inside-out"
        }
        _ => {
            // swap the diagonal of two triangles
            let tri: Vec<usize> = (0..faces.len()).filter(|i| faces[*i].len() == 3).collect();
            let mut done = false;
            for _ in 0..10 {
                if tri.is_empty() {
                    break;
                }
                let i = *c.rng.pick(&tri);
                let k = c.rng.below(3);
                let (u, v, x) = (faces[i][k], faces[i][(k + 1) % 3], faces[i][(k + 2) % 3]);
                let Some(j) = tri.iter().copied().find(|j| *j != i && (0..3).any(|k| faces[*j][k] == v && faces[*j][(k + 1) % 3] == u)) else { continue };
                let y = *faces[j].iter().find(|y| **y != u && **y != v).unwrap();
                if x == y || sn.shared(x, y).is_some() {
                    continue;
                }
                faces2[i] = vec![x, u, y];
                faces2[j] = vec![y, v, x];
                done = true;
                break;
            }
            if done {
                "other-diagonal"
            } else {
                "same"
            }
        }
    };
    c.phase("rebuild");
    let Some(mut b) = shell::<T3>(&mut c.rng, &faces2, |v| vp(p2[&v])) else {
        c.count("not-shellable");
        return;
    };
    let mut a = s.mesh;
    c.phase("setup");
    let holes = if c.rng.chance(0.4) { c.rng.below(3) } else { 0 };
    for _ in 0..holes {
        // the same or another face in both
        let f = c.rng.below(a.num_faces().max(1));
        let (Some(fa), Some(fb)) = (a.face_ids().nth(f), b.face_ids().nth(c.rng.below(b.num_faces().max(1)))) else { break };
        let cyc: Vec<P3> = a.face(fa).vertex_ids(&a).map(|v| p[&v]).collect();
        a.remove_face(fa);
        let pb = pos(&b);
        let same = b.face_ids().find(|f| b.face(*f).vertex_ids(&b).count() == cyc.len() && b.face(*f).vertex_ids(&b).all(|v| cyc.iter().any(|q| len(sub(*q, pb[&v])) < eps)));
        match same {
            Some(f) if c.rng.chance(0.6) => b.remove_face(f),
            _ => b.remove_face(fb),
        };
    }
    for k in 0..c.rng.below(3) {
        if c.rng.chance(0.5) {
            let q = [s.size * 3.0 + k as f64, 1.0, 1.0];
            a.add_vertex(vp(q));
            b.add_vertex(vp(q));
        }
    }
    let (sa, _) = monitor(c, &a, "original");
    let (sb, _) = monitor(c, &b, "rebuilt");
    let (pa, pb) = (pos(&a), pos(&b));
    let iso = same_shape(&sa, &pa, &sb, &pb, eps);
    c.log(format!("{what}, {holes} holes"));
    c.phase(format!("iso {what}"));
    for (k, x, y) in [("", &a, &b), ("reversed:", &b, &a)] {
        let d = x.is_isomorphic_by_pos::<f64, 3, Vec3<f64>, T3>(y, eps);
        c.check(d.eq() == iso, &format!("iso:{k}{what}"), || format!("is_isomorphic_by_pos reports {d:?}, but the meshes are {}isomorphic", if iso { "" } else { "not " }));
        let d = x.is_isomorphic_pos::<3, f64, Vec3<f64>>(y, eps);
        c.check(d.eq() == iso, &format!("iso-pos:{k}{what}"), || format!("is_isomorphic_pos reports {d:?}, but the meshes are {}isomorphic", if iso { "" } else { "not " }));
    }
    given_map(c, &a, &b, &sa, &sb, &pa, &pb, iso, eps, what);
    let d = a.is_trivially_isomorphic(&b);
    let want = same_ids(&sa, &sb);
    c.check(d.eq() == want, &format!("ids:{what}"), || format!("is_trivially_isomorphic reports {d:?}, but ids and links are {}", if want { "the same" } else { "different" }));
    c.count(what);
    c.count(if iso { "renumbered-isomorphic" } else { "renumbered-not-isomorphic" });
    if holes > 0 {
        c.count("with-holes");
    }
    c.state(sb.hash());
    c.nontrivial();
}

fn c21_curves(c: &mut Case) {
    type M = Mesh2d64Curved;
    type CT = CurvedEdgeType<2, MeshType2d64PNUCurved>;
    c.phase("setup");
    let p = gen::polygon(&mut c.rng, 9).p;
    let mut a = M::new();
    a.insert_polygon(p.iter().map(|q| VertexPayloadPNU::from_pos(Vec2::new(q[0], q[1]))));
    let n = a.num_edges();
    let mut curve = |c: &mut Case| -> CT {
        let mut v = || Vec2::new(c.rng.f(-2.0, 2.0), c.rng.f(-2.0, 2.0));
        let (a, b) = (v(), v());
        match c.rng.below(4) {
            0 | 1 => CurvedEdgeType::Linear,
            2 => CurvedEdgeType::QuadraticBezier(a),
            _ => CurvedEdgeType::CubicBezier(a, b),
        }
    };
    let mut curves: Vec<CT> = (0..n).map(|_| curve(c)).collect();
    for (i, k) in curves.iter().enumerate() {
        a.edge_mut(i).set_curve_type(*k);
    }
    let mut b = a.clone();
    let eps = 1e-5;
    let i = c.rng.below(n);
    let old = curves[i];
    let mut same = true;
    match c.rng.below(3) {
        0 => {}
        1 => {
            let far = c.rng.chance(0.6);
            let mut d = Vec2::new(0.0, 0.0);
            d[c.rng.below(2)] = if far { c.rng.logf(1e-4, 1.0) } else { 1e-7 };
            let first = c.rng.chance(0.5);
            curves[i] = match old {
                CurvedEdgeType::Linear => old,
                CurvedEdgeType::QuadraticBezier(a) => CurvedEdgeType::QuadraticBezier(a + d),
                CurvedEdgeType::CubicBezier(a, b) if first => CurvedEdgeType::CubicBezier(a + d, b),
                CurvedEdgeType::CubicBezier(a, b) => CurvedEdgeType::CubicBezier(a, b + d),
            };
            same = !far || old == CurvedEdgeType::Linear;
        }
        _ => {
            let k = curve(c);
            curves[i] = k;
            same = k == old;
        }
    }
    b.edge_mut(i).set_curve_type(curves[i]);
    c.log(format!("{p:?}: edge {i} {old:?} -> {:?}", curves[i]));
    c.phase("curved");
    for (k, x, y) in [("", &a, &b), ("reversed:", &b, &a)] {
        let d = x.is_trivially_isomorphic_pos_curved::<2>(y, eps);
        c.check(d.eq() == same, &format!("curves:{k}"), || format!("is_trivially_isomorphic_pos_curved reports {d:?} for the curves {old:?} and {:?}", curves[i]));
        let d = x.is_trivially_isomorphic_pos::<2, f64, Vec2<f64>>(y, eps);
        c.check(d.eq(), &format!("curves-ignored:{k}"), || format!("is_trivially_isomorphic_pos reports {d:?}"));
    }
    c.check(a.is_trivially_isomorphic_pos_curved::<2>(&a.clone(), eps).eq(), "curves-self", || "not equal to itself".into());
    let curved = b.has_curved_edges::<2>();
    let want = curves.iter().any(|k| *k != CurvedEdgeType::Linear);
    c.check(curved == want, "has-curves", || format!("has_curved_edges is {curved}"));
    c.count(if same { "same-curves" } else { "different-curves" });
    c.state(vmon::mix(n as u64, i as u64));
    c.nontrivial();
}

// ---------------------------------------------------------------------------------------- C22

fn neighbors(s: &Snap) -> BTreeMap<usize, BTreeSet<usize>> {
    let mut r: BTreeMap<usize, BTreeSet<usize>> = s.v.keys().map(|v| (*v, BTreeSet::new())).collect();
    for (i, e) in &s.e {
        r.get_mut(&e.origin).unwrap().insert(s.target(*i));
    }
    r
}
fn distances(nb: &BTreeMap<usize, BTreeSet<usize>>, from: usize) -> BTreeMap<usize, usize> {
    let mut d = BTreeMap::from([(from, 0)]);
    let mut q = VecDeque::from([from]);
    while let Some(v) = q.pop_front() {
        for w in &nb[&v] {
            if !d.contains_key(w) {
                d.insert(*w, d[&v] + 1);
                q.push_back(*w);
            }
        }
    }
    d
}

fn graph<T>(c: &mut Case, m: &HalfEdgeMeshImpl<T>)
where
    T: TaggedG<VP = VertexPayloadPNU<f64, 3>> + EuclideanMeshType<3, S = f64, Vec = Vec3<f64>>,
{
    let Ok(s) = snap(m) else { return };
    let p = pos(m);
    let nb = neighbors(&s);
    let ids: Vec<usize> = s.v.keys().copied().collect();
    let n = ids.len();
    c.phase("paths");
    let all = n <= 14;
    for k in 0..if all { n } else { 10 } {
        let a = if all { ids[k] } else { *c.rng.pick(&ids) };
        let d = distances(&nb, a);
        for j in 0..if all { n } else { 10 } {
            let b = if all { ids[j] } else { *c.rng.pick(&ids) };
            let path = m.shortest_path(T::V::new(a), T::V::new(b)).map(|p| p.into_iter().map(ix).collect::<Vec<_>>());
            match (path, d.get(&b)) {
                (None, None) => c.count("unreachable"),
                (None, Some(l)) => c.fail("path-missing", format!("no path from {a} to {b}, which has {l} edges")),
                (Some(p), None) => c.fail("path-invented", format!("the path {p:?} from {a} to {b} is impossible")),
                (Some(p), Some(l)) => {
                    c.check(p.first() == Some(&a) && p.last() == Some(&b), "path-ends", || format!("the path {p:?} doesn't lead from {a} to {b}"));
                    c.check(p.windows(2).all(|w| nb[&w[0]].contains(&w[1])), "path-edges", || format!("the path {p:?} isn't along edges"));
                    c.check(p.len() == l + 1, "path-length", || format!("the path {p:?} from {a} to {b} has {} edges instead of {l}", p.len() - 1));
                    c.max("longest-path", *l as u64);
                    if *l >= 3 {
                        c.count("long-paths");
                    }
                }
            }
        }
    }
    c.phase("matrices");
    c.check(m.has_consecutive_vertex_ids() == ids.iter().enumerate().all(|(i, v)| i == *v), "consecutive", || format!("ids {ids:?}"));
    let adj = m.adjacency_matrix::<f64>();
    let adj32 = m.adjacency_matrix::<f32>();
    let euc = m.adjacency_matrix_euclidean::<3>();
    let deg = m.degree_matrix::<f64>();
    let lap = m.laplacian::<f64>();
    let leu = m.laplacian_euclidean::<3>();
    for (x, what) in [(&adj, "adjacency"), (&euc, "adjacency_euclidean"), (&deg, "degree"), (&lap, "laplacian"), (&leu, "laplacian_euclidean")] {
        c.check(x.nrows() == n && x.ncols() == n, &format!("size:{what}"), || format!("{}x{} for {n} vertices", x.nrows(), x.ncols()));
    }
    let mut big = 0.0f64;
    for i in 0..n {
        let mut sum = 0.0;
        let mut mag = 0.0;
        for j in 0..n {
            let e = nb[&i].contains(&j);
            let d = len(sub(p[&i], p[&j]));
            let (w, we) = (e as u8 as f64, if e { d } else { 0.0 });
            c.check(adj[(i, j)] == w && adj32[(i, j)] == w as f32, "adjacency", || format!("entry {i} {j} is {} instead of {w}", adj[(i, j)]));
            c.check((euc[(i, j)] - we).abs() <= 1e-12 * we, "adjacency-euclidean", || format!("entry {i} {j} is {} instead of {we}", euc[(i, j)]));
            let dg = if i == j { nb[&i].len() as f64 } else { 0.0 };
            c.check(deg[(i, j)] == dg, "degree-matrix", || format!("entry {i} {j} is {} instead of {dg}", deg[(i, j)]));
            c.check(lap[(i, j)] == dg - w, "laplacian", || format!("entry {i} {j} is {} instead of {}", lap[(i, j)], dg - w));
            if i != j {
                c.check(leu[(i, j)] == -euc[(i, j)] && leu[(i, j)] == leu[(j, i)], "laplacian-euclidean", || format!("entry {i} {j} is {} instead of {}", leu[(i, j)], -we));
            }
            sum += leu[(i, j)];
            mag += we;
        }
        c.check((sum).abs() <= 1e-12 * mag && (leu[(i, i)] - mag).abs() <= 1e-12 * mag, "laplacian-row", || format!("row {i} of the euclidean Laplacian sums up to {sum}, its diagonal is {} instead of {mag}", leu[(i, i)]));
        big = big.max(mag);
    }
    let dl: Vec<(usize, usize)> = m.degrees().map(|(v, d)| (ix(v), d)).collect();
    c.check(dl == nb.iter().map(|(v, x)| (*v, x.len())).collect::<Vec<_>>(), "degrees", || format!("degrees {dl:?}"));
    c.count("matrices");
    c.state(s.hash());
    if s.e.len() >= 6 {
        c.nontrivial();
    }
}
fn c22_t<T>(c: &mut Case)
where
    T: TaggedG<VP = VertexPayloadPNU<f64, 3>> + EuclideanMeshType<3, S = f64, Vec = Vec3<f64>>,
{
    let limit = size(c, &[4, 8, 14, 30, 60]);
    let mut a = Machine::<T>::new(limit, true);
    let steps = c.rng.int(2, 90);
    let ops = *c.rng.pick(&[ALL, SPLIT, FLIP]);
    a.history(c, steps, ops);
    graph(c, &a.m);
}
fn c22(c: &mut Case) {
    match c.rng.below(3) {
        0 => c22_t::<GT<usize, usize, usize>>(c),
        1 => c22_t::<GT<u32, u16, u16>>(c),
        _ => c22_t::<GT<u16, u16, u32>>(c),
    }
}
/// Long paths, grids and rings with shortcuts.
fn c22_wires(c: &mut Case) {
    type T = GT<usize, usize, usize>;
    c.phase("setup");
    let mut m = HalfEdgeMeshImpl::<T>::new();
    let mut tag = 0;
    let mut ps = |c: &mut Case, k: usize| -> Vec<VertexPayloadPNU<f64, 3>> {
        let _ = &c;
        (0..k)
            .map(|_| {
                tag += 1;
                <VertexPayloadPNU<f64, 3> as VTag>::mk(tag)
            })
            .collect()
    };
    for _ in 0..c.rng.int(1, 3) {
        let k = { let k = c.rng.rare(30, 400); c.rng.int(3, k) };
        let p = ps(c, k);
        let base = m.num_vertices();
        if c.rng.chance(0.5) {
            m.insert_path(p);
        } else {
            m.insert_loop(p);
        }
        // shortcuts along one side
        for _ in 0..c.rng.below(5) {
            let (i, o) = {
                let s = snap(&m).unwrap_or_default();
                let cyc: Vec<Vec<usize>> = s.boundary_cycles().into_iter().filter(|x| x.iter().all(|e| s.e[e].origin >= base)).collect();
                if cyc.is_empty() {
                    break;
                }
                let cy = c.rng.pick(&cyc).clone();
                let (i, o) = (*c.rng.pick(&cy), *c.rng.pick(&cy));
                let (x, y) = (s.target(i), s.target(o));
                if x == y || s.shared(x, y).is_some() {
                    continue;
                }
                (i, o)
            };
            m.insert_edge(i, Pay(0), o, Pay(0));
            c.count("shortcuts");
        }
    }
    if c.rng.chance(0.3) {
        let p = ps(c, 1).remove(0);
        m.add_vertex(p);
    }
    c.fingerprint(snap(&m).map(|s| s.hash()).unwrap_or(0));
    graph(c, &m);
}

pub fn props() -> Vec<Property> {
    vec![
        Property {
            id: "C21",
            workloads: vec![w("histories", 40000, 400000, c21_ids), w("wheels", 8000, 64000, c21_wheels), w("renumbered", 32000, 300000, c21_renumbered), w("curves", 16000, 128000, c21_curves)],
            floors: vec![
                ("same-ids", 2000), ("different-ids", 2000), ("isomorphic", 2000), ("not-isomorphic", 2000), ("renumbered-isomorphic", 1000), ("renumbered-not-isomorphic", 1000), ("moved", 300), ("swapped", 300),
                ("inside-out", 300), ("other-diagonal", 300), ("with-holes", 1000), ("same-curves", 500), ("different-curves", 500), ("churn", 300), ("flips", 300), ("payloads", 300), ("given-vertex", 300), ("given-edge", 300), ("given-face", 300),
            ],
            rule: "A case is a pair of meshes: a mesh from a random edit history and a variant of it (identical, edited, moved, flipped, with other payloads), or a solid and its reconstruction from a shuffled (and possibly altered) list of faces, or outlines with curves; the verdict of every comparison function in both directions is compared with one computed from the raw links and positions. Non-trivial: the meshes have edges.",
            assumptions: vec!["distinct vertices of one mesh are further apart than the tolerance"],
        },
        Property {
            id: "C22",
            workloads: vec![w("histories", 24000, 240000, c22), w("wires", 12000, 96000, c22_wires)],
            floors: vec![("matrices", 2000), ("unreachable", 2000), ("long-paths", 2000), ("shortcuts", 500)],
            rule: "A case is a mesh from a random edit history or random wires with shortcuts; the paths between all (or random) pairs of vertices and all matrices are compared with ones computed from the raw links and positions. Non-trivial: at least 6 half-edges.",
            assumptions: vec![],
        },
    ]
}
