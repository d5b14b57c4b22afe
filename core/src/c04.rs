//! C04: traversals and incidence queries against the links; C33: the consistency check against
//! corrupted links.

use crate::machine::*;
use crate::snap::*;
use crate::types::*;
use procedural_modelling::prelude::*;
use std::collections::BTreeSet;
use vmon::{w, Case, Property};

/// Collects an iterator, but gives up when it yields more than `max` items.
fn take<I: Iterator>(c: &mut Case, what: &str, max: usize, it: I) -> Vec<I::Item> {
    let r: Vec<_> = it.take(max + 1).collect();
    c.check(r.len() <= max, &format!("endless:{what}"), || format!("{what} yields more than {max} items"));
    r
}

fn eq<A: PartialEq + std::fmt::Debug>(c: &mut Case, what: &str, ctx: impl std::fmt::Display, got: A, want: A) {
    c.check(got == want, &format!("query:{what}"), || format!("{what} of {ctx}: got {got:?} but the links give {want:?}"));
}

/// The remaining length is right at every position of the iterator.
fn lens<I: ExactSizeIterator>(c: &mut Case, what: &str, ctx: impl std::fmt::Display, mut it: I, n: usize) {
    for i in 0..=n {
        let (l, h) = (it.len(), it.size_hint());
        c.check(l == n - i && h == (n - i, Some(n - i)), &format!("len:{what}"), || {
            format!("{what} of {ctx}: after {i} of {n} items it reports {l} remaining, size_hint {h:?}")
        });
        let x = it.next();
        c.check(x.is_some() == (i < n), &format!("len:{what}"), || format!("{what} of {ctx}: item {i} of {n} is {}", if x.is_some() { "present" } else { "missing" }));
    }
}

/// The size hint is right at every position.
fn hints<I: Iterator>(c: &mut Case, what: &str, ctx: impl std::fmt::Display, mut it: I, n: usize) {
    for i in 0..=n {
        let (l, h) = it.size_hint();
        c.check(l <= n - i && h.is_none_or(|h| h >= n - i), &format!("len:{what}"), || {
            format!("{what} of {ctx}: after {i} of {n} items the size hint is {l}, {h:?}")
        });
        it.next();
    }
}

pub fn queries<T: Tagged>(c: &mut Case, m: &HalfEdgeMeshImpl<T>, s: &Snap) {
    c.phase("queries");
    let lim = s.e.len() + 1;
    let no = |x: usize| if x == NO { None } else { Some(x) };
    // whole mesh
    let vs: Vec<usize> = s.v.keys().copied().collect();
    let es: Vec<usize> = s.e.keys().copied().collect();
    let fs: Vec<usize> = s.f.keys().copied().collect();
    eq(c, "vertex_ids", "the mesh", MeshBasics::vertex_ids(m).map(ix).collect(), vs.clone());
    eq(c, "edge_ids", "the mesh", MeshBasics::edge_ids(m).map(ix).collect(), es.clone());
    eq(c, "face_ids", "the mesh", MeshBasics::face_ids(m).map(ix).collect(), fs.clone());
    eq(c, "num_vertices", "the mesh", m.num_vertices(), vs.len());
    eq(c, "num_edges", "the mesh", m.num_edges(), es.len());
    eq(c, "num_faces", "the mesh", m.num_faces(), fs.len());
    eq(c, "is_open", "the mesh", m.is_open(), s.e.values().any(|e| e.face == NO));
    eq(c, "has_consecutive_vertex_ids", "the mesh", m.has_consecutive_vertex_ids(), vs.iter().enumerate().all(|(i, v)| i == *v));
    let mut tw: Vec<(usize, usize)> = HalfEdgeMesh::twin_edges(m).map(|(a, b)| (ix(a.id()), ix(b.id()))).collect();
    for t in tw.iter_mut() {
        if t.0 > t.1 {
            *t = (t.1, t.0);
        }
    }
    tw.sort();
    eq(c, "twin_edges", "the mesh", tw, es.iter().filter(|e| s.e[e].twin > **e).map(|e| (*e, s.e[e].twin)).collect());

    // half-edges
    for (&i, h) in &s.e {
        let e = m.edge(T::E::new(i)).clone();
        let fw = s.cycle(i);
        let mut bw = fw.clone();
        bw[1..].reverse();
        c.max("longest_cycle", fw.len() as u64);
        eq(c, "edge.id", i, ix(e.id()), i);
        eq(c, "edge.next", i, ix(HalfEdge::next(&e, m).id()), h.next);
        eq(c, "edge.prev", i, ix(e.prev(m).id()), h.prev);
        eq(c, "edge.twin", i, ix(e.twin(m).id()), h.twin);
        eq(c, "edge.origin", i, ix(e.origin(m).id()), h.origin);
        eq(c, "edge.target", i, ix(e.target(m).id()), s.target(i));
        eq(c, "edge.target_id", i, ix(e.target_id(m)), s.target(i));
        eq(c, "edge.face", i, HalfEdge::face(&e, m).map(|f| ix(f.id())), no(h.face));
        eq(c, "edge.other_face", i, e.other_face(m).map(|f| ix(f.id())), no(s.e[&h.twin].face));
        eq(c, "edge.is_boundary_self", i, e.is_boundary_self(), h.face == NO);
        eq(c, "edge.is_boundary", i, e.is_boundary(m), h.face == NO || s.e[&h.twin].face == NO);
        let x = take(c, "edges_face", lim, e.edges_face(m));
        eq(c, "edges_face", i, x.iter().map(|x| ix(x.id())).collect::<Vec<_>>(), fw.clone());
        let x = take(c, "edges_face_back", lim, e.edges_face_back(m));
        eq(c, "edges_face_back", i, x.iter().map(|x| ix(x.id())).collect::<Vec<_>>(), bw.clone());
        let x = take(c, "edges_from", lim, m.edges_from(T::E::new(i)));
        eq(c, "edges_from", i, x.iter().map(|x| ix(x.id())).collect::<Vec<_>>(), fw.clone());
        let x = take(c, "edges_back_from", lim, m.edges_back_from(T::E::new(i)));
        eq(c, "edges_back_from", i, x.iter().map(|x| ix(x.id())).collect::<Vec<_>>(), bw.clone());
        if i % 5 == 0 {
            lens(c, "edges_face", i, ForwardEdgeIterator::<T>::new(e.clone(), m), fw.len());
            hints(c, "edges_face", i, e.edges_face(m), fw.len());
            hints(c, "edges_face_back", i, e.edges_face_back(m), fw.len());
        }
        let mut ids: Vec<usize> = e.face_ids(m).map(ix).collect();
        ids.sort();
        let mut want: Vec<usize> = [h.face, s.e[&h.twin].face].into_iter().filter(|x| *x != NO).collect();
        want.sort();
        eq(c, "edge.face_ids", i, ids, want);
        // reachability
        let on: BTreeSet<usize> = fw.iter().map(|x| s.e[x].origin).collect();
        for &v in &vs {
            let (a, b) = (e.same_face(m, T::V::new(v)), e.same_face_back(m, T::V::new(v)));
            eq(c, "same_face", format_args!("edge {i} and vertex {v}"), a, on.contains(&v));
            eq(c, "same_face_back", format_args!("edge {i} and vertex {v}"), b, on.contains(&v));
        }
    }
    // ids that no vertex has
    let top = m.max_vertex_index();
    let max = ix(<T::V as IndexType>::max());
    let mut absent: Vec<usize> = (0..top).filter(|i| !s.v.contains_key(i)).collect();
    absent.extend((0..3).map(|k| top.saturating_add(k)).chain([2 * top + 40]).filter(|i| *i + 1 < max && !s.v.contains_key(i)));
    for i in absent {
        let got = c.may_panic(|_| m.has_vertex(T::V::new(i)));
        c.check(matches!(got, Ok(false)), "query:has_vertex", || format!("has_vertex({i}) gave {got:?}, but there is no vertex {i} (ids in use are below {top})"));
    }
    // vertices
    for &i in &vs {
        let v = m.vertex(T::V::new(i));
        let wheel = s.wheel(i);
        let deg = wheel.len();
        c.max("max_degree", deg as u64);
        eq(c, "vertex.id", i, ix(v.id()), i);
        eq(c, "has_vertex", i, m.has_vertex(T::V::new(i)), true);
        eq(c, "vertex.edge", i, v.edge(m).map(|e| ix(e.id())), no(s.v[&i]));
        let x = take(c, "edges_out", lim, v.edges_out(m));
        eq(c, "edges_out", i, x.iter().map(|x| ix(x.id())).collect::<Vec<_>>(), wheel.clone());
        let x = take(c, "edges_in", lim, v.edges_in(m));
        eq(c, "edges_in", i, x.iter().map(|x| ix(x.id())).collect::<Vec<_>>(), wheel.iter().map(|e| s.e[e].twin).collect());
        let nb: Vec<usize> = wheel.iter().map(|e| s.target(*e)).collect();
        let x = take(c, "vertex.vertices", lim, v.vertices(m));
        eq(c, "vertex.vertices", i, x.iter().map(|x| ix(x.id())).collect::<Vec<_>>(), nb.clone());
        eq(c, "neighbor_ids", i, v.neighbor_ids(m).map(ix).collect(), nb.clone());
        let x = take(c, "vertex.faces", lim, v.faces(m));
        eq(c, "vertex.faces", i, x.iter().map(|x| ix(x.id())).collect::<Vec<_>>(), wheel.iter().map(|e| s.e[e].face).filter(|f| *f != NO).collect());
        eq(c, "degree", i, v.degree(m), deg);
        eq(c, "vertex.is_boundary", i, v.is_boundary(m), wheel.iter().any(|e| s.e[e].face == NO || s.e[&s.e[e].twin].face == NO));
        eq(c, "has_only_one_edge", i, v.has_only_one_edge(m), deg == 1);
        let bo: Vec<usize> = wheel.iter().copied().filter(|e| s.e[e].face == NO).collect();
        let bi: Vec<usize> = wheel.iter().map(|e| s.e[e].twin).filter(|e| s.e[e].face == NO).collect();
        // the boundary edge is only defined if there is exactly one
        if deg == 0 || bo.len() == 1 {
            eq(c, "outgoing_boundary_edge", i, v.outgoing_boundary_edge(m).map(ix), bo.first().copied());
        }
        if bi.len() == 1 {
            eq(c, "ingoing_boundary_edge", i, v.ingoing_boundary_edge(m).map(ix), bi.first().copied());
        }
        if bo.len() > 1 {
            c.count("vertex-on-several-boundaries");
        }
        if deg == 0 {
            c.count("isolated-vertex");
        }
        if deg == 1 {
            c.count("dangling-vertex");
        }
    }
    // pairs of vertices
    for &a in &vs {
        let fa: BTreeSet<usize> = s.wheel(a).iter().map(|e| s.e[e].face).filter(|f| *f != NO).collect();
        for &b in &vs {
            let want = s.shared(a, b);
            let (x, y) = (T::V::new(a), T::V::new(b));
            eq(c, "shared_edge", format_args!("{a} and {b}"), m.shared_edge(x, y).map(|e| ix(e.id())), want);
            eq(c, "shared_edge_id", format_args!("{a} and {b}"), m.shared_edge_id(x, y).map(ix), want);
            let fb: BTreeSet<usize> = s.wheel(b).iter().map(|e| s.e[e].face).filter(|f| *f != NO).collect();
            let got = m.shared_face(x, y).map(ix);
            let ok = match got {
                None => fa.is_disjoint(&fb),
                Some(f) => fa.contains(&f) && fb.contains(&f),
            };
            c.check(ok, "query:shared_face", || format!("shared_face({a}, {b}) = {got:?} but they touch the faces {fa:?} and {fb:?}"));
        }
    }
    // faces
    for (&i, fa) in &s.f {
        let f = m.face(T::F::new(i));
        let cyc = s.cycle(fa.edge);
        let n = cyc.len();
        eq(c, "face.id", i, ix(f.id()), i);
        eq(c, "face.edge", i, ix(FaceBasics::edge(f, m).id()), fa.edge);
        let x = take(c, "face.edges", lim, FaceBasics::edges(f, m));
        eq(c, "face.edges", i, x.iter().map(|x| ix(x.id())).collect::<Vec<_>>(), cyc.clone());
        eq(c, "face.edge_ids", i, FaceBasics::edge_ids(f, m).map(ix).collect(), cyc.clone());
        let x = take(c, "face.vertices", lim, FaceBasics::vertices(f, m));
        let vs: Vec<usize> = cyc.iter().map(|e| s.target(*e)).collect();
        eq(c, "face.vertices", i, x.iter().map(|x| ix(x.id())).collect::<Vec<_>>(), vs.clone());
        eq(c, "face.vertex_ids", i, FaceBasics::vertex_ids(f, m).map(ix).collect(), vs);
        eq(c, "face.num_edges", i, FaceBasics::num_edges(f, m), n);
        eq(c, "face.num_vertices", i, FaceBasics::num_vertices(f, m), n);
        if n >= 3 {
            eq(c, "face.num_triangles", i, FaceBasics::num_triangles(f, m), (n - 2) * 3);
        }
        hints(c, "face.edges", i, FaceBasics::edges(f, m), n);
        lens(c, "face.vertices", i, FaceBasics::vertices(f, m), n);
        if cyc.iter().map(|e| s.e[e].origin).collect::<BTreeSet<_>>().len() < n {
            c.count("face-visits-vertex-twice");
        }
    }
    // queries must not have changed anything
    c.count("meshes");
}

/// Walks around a face with mutable access and checks that each edge is visited once, in order.
fn mutate<T: Tagged>(c: &mut Case, mc: &mut Machine<T>) {
    let s = &mc.a.s;
    if s.e.is_empty() {
        return;
    }
    let es: Vec<usize> = s.e.keys().copied().collect();
    let i = *c.rng.pick(&es);
    let want = s.cycle(i);
    let e = mc.m.edge(T::E::new(i)).clone();
    let mut got = vec![];
    c.phase("edges_face_mut");
    for x in e.edges_face_mut(&mut mc.m) {
        got.push(ix(x.id()));
        EdgeBasics::payload_mut(x).0 += 1 << 40;
        if got.len() > want.len() {
            break;
        }
    }
    eq(c, "edges_face_mut", i, got, want.clone());
    for j in &want {
        let p = EdgeBasics::payload(mc.m.edge(T::E::new(*j))).0;
        eq(c, "edges_face_mut payload", j, p, mc.a.ep[j] + (1 << 40));
        EdgeBasics::payload_mut(mc.m.edge_mut(T::E::new(*j))).0 = mc.a.ep[j];
    }
}

fn c04_t<T: Tagged>(c: &mut Case) {
    let limit = size(c, &[6, 10, 18, 30]);
    let steps = c.rng.int(10, 70);
    let mut mc = Machine::<T>::new(limit, true);
    let ops = *c.rng.pick(&[ALL, ALL, SPLIT, REUSE]);
    let n = mc.history(c, steps / 2, ops);
    let s = mc.a.s.clone();
    queries::<T>(c, &mc.m, &s);
    let n = n + mc.history(c, steps / 2, ops);
    let s = mc.a.s.clone();
    queries::<T>(c, &mc.m, &s);
    mutate(c, &mut mc);
    c.phase("queries");
    match read::<T>(&mc.m) {
        Ok(r) => c.check(r == mc.a, "query:mutated", || "the queries changed the mesh".into()),
        Err((sig, msg)) => c.fail(&format!("query:{sig}"), msg),
    }
    c.add("steps", n as u64);
    if s.e.len() >= 6 {
        c.nontrivial();
    }
}

fn c04(c: &mut Case) {
    match c.rng.below(3) {
        0 => c04_t::<TT<usize, usize, usize>>(c),
        1 => c04_t::<TT<u16, u16, u8>>(c),
        _ => c04_t::<TT<u32, u32, u16>>(c),
    }
}

/// Builds a mesh all of whose edges touch a face.
fn wire_free<T: Tagged>(c: &mut Case) -> Machine<T> {
    let limit = size(c, &[6, 10, 16]);
    let mut mc = Machine::<T>::new(limit, true);
    let steps = c.rng.int(3, 45);
    mc.history(c, steps, ALL);
    for _ in 0..200 {
        let s = &mc.a.s;
        let Some((&i, _)) = s.e.iter().find(|(_, e)| e.face == NO && s.e[&e.twin].face == NO) else { break };
        if s.cycle(i).len() >= 3 {
            c.log(format!("close_hole({i})"));
            let f = mc.m.close_hole(T::E::new(i), Pay(1), false);
            let _ = f;
        } else {
            // an isolated edge: attach a triangle to it
            let s = mc.a.s.clone();
            let h = s.e[&i];
            c.log(format!("triangle on the isolated edge {i}"));
            let (_, e1, e2) = mc.m.add_vertex_via_edge(T::E::new(i), T::E::new(h.next), Pay(2), Pay(3), Pay(4));
            let _ = e2;
            mc.m.close_face(e1, Pay(5), T::E::new(h.twin), Pay(6), Pay(7), false);
        }
        match read::<T>(&mc.m) {
            Ok(r) => mc.a = r,
            Err((sig, msg)) => {
                c.fail(&format!("wf:{sig}:closing"), msg);
                break;
            }
        }
    }
    // open some of it again
    for _ in 0..c.rng.below(4) {
        let s = &mc.a.s;
        let cand: Vec<usize> = s.f.keys().copied().filter(|f| s.cycle(s.f[f].edge).iter().all(|e| { let t = s.e[&s.e[e].twin].face; t != NO && t != *f })).collect();
        if cand.is_empty() {
            break;
        }
        mc.m.remove_face(T::F::new(*c.rng.pick(&cand)));
        if let Ok(r) = read::<T>(&mc.m) {
            mc.a = r;
        }
    }
    mc
}

#[derive(Debug, Clone, Copy)]
enum Hit {
    Next(usize, usize),
    Prev(usize, usize),
    Twin(usize, usize),
    Origin(usize, usize),
    Face(usize, usize),
    VRep(usize, usize),
    FRep(usize, usize),
}

fn c33_t<T: Tagged>(c: &mut Case) {
    let mc = wire_free::<T>(c);
    let s = mc.a.s.clone();
    c.phase("check");
    let wf = s.wellformed();
    let Ok(info) = wf else {
        c.fail("wf:harness", format!("{wf:?}"));
        return;
    };
    if s.e.is_empty() || info.wires > 0 {
        return;
    }
    let ok = MeshChecker::check(&mc.m);
    c.check(ok.is_ok(), "rejects", || format!("well-formed mesh without wires, but check() says {ok:?}"));
    c.check(!format!("{:?}", mc.m).contains("ERROR"), "rejects-debug", || "the debug output of a well-formed mesh contains an error".into());
    c.count("accepted");
    c.nontrivial();
    let es: Vec<usize> = s.e.keys().copied().collect();
    let vs: Vec<usize> = s.v.keys().copied().collect();
    let fs: Vec<usize> = s.f.keys().copied().collect();
    let mut hits = vec![];
    let all = es.len() <= 12 && c.rng.chance(0.3);
    if all {
        for &a in &es {
            for &b in &es {
                hits.extend([Hit::Next(a, b), Hit::Prev(a, b), Hit::Twin(a, b)]);
            }
            hits.extend(vs.iter().map(|v| Hit::Origin(a, *v)));
            hits.extend(fs.iter().map(|f| Hit::Face(a, *f)));
            hits.push(Hit::Face(a, NO));
        }
        for &b in &es {
            hits.extend(vs.iter().map(|v| Hit::VRep(*v, b)));
            hits.extend(fs.iter().map(|f| Hit::FRep(*f, b)));
        }
        c.count("exhaustive");
    } else {
        for _ in 0..60 {
            let a = *c.rng.pick(&es);
            // near misses are more interesting than random links
            let h = s.e[&a];
            let b = match c.rng.below(7) {
                0 => s.e[&h.next].next,
                1 => h.twin,
                2 => s.e[&h.prev].prev,
                3 => s.e[&h.twin].next,
                4 => h.next,
                _ => *c.rng.pick(&es),
            };
            let near = |c: &mut Case| if c.rng.chance(0.5) { s.target(a) } else { *c.rng.pick(&vs) };
            hits.push(match c.rng.below(7) {
                0 => Hit::Next(a, b),
                1 => Hit::Prev(a, b),
                2 => Hit::Twin(a, b),
                3 => Hit::Origin(a, near(c)),
                4 => Hit::Face(a, if c.rng.chance(0.3) { NO } else { *c.rng.pick(&fs) }),
                5 => Hit::VRep(h.origin, b),
                _ => Hit::FRep(*c.rng.pick(&fs), b),
            });
        }
    }
    for h in hits {
        let mut t = s.clone();
        let mut m = mc.m.clone();
        let kind;
        match h {
            Hit::Next(a, b) => {
                kind = "next";
                t.e.get_mut(&a).unwrap().next = b;
                m.edge_mut(T::E::new(a)).set_next(T::E::new(b));
            }
            Hit::Prev(a, b) => {
                kind = "prev";
                t.e.get_mut(&a).unwrap().prev = b;
                m.edge_mut(T::E::new(a)).set_prev(T::E::new(b));
            }
            Hit::Twin(a, b) => {
                kind = "twin";
                t.e.get_mut(&a).unwrap().twin = b;
                m.edge_mut(T::E::new(a)).set_twin(T::E::new(b));
            }
            Hit::Origin(a, b) => {
                kind = "origin";
                t.e.get_mut(&a).unwrap().origin = b;
                m.edge_mut(T::E::new(a)).set_origin(T::V::new(b));
            }
            Hit::Face(a, b) => {
                kind = "face";
                let e = m.edge_mut(T::E::new(a));
                if t.e[&a].face != NO {
                    e.delete_face();
                }
                if b != NO {
                    e.set_face(T::F::new(b));
                }
                t.e.get_mut(&a).unwrap().face = b;
            }
            Hit::VRep(v, b) => {
                kind = "vertex-edge";
                t.v.insert(v, b);
                m.vertex_mut(T::V::new(v)).set_edge(T::E::new(b));
            }
            Hit::FRep(f, b) => {
                kind = "face-edge";
                t.f.get_mut(&f).unwrap().edge = b;
                FaceBasics::set_edge(m.face_mut(T::F::new(f)), T::E::new(b));
            }
        }
        if t == s {
            continue;
        }
        let broken = match h {
            // moving the representative to another incident edge is fine
            Hit::VRep(v, b) => s.e[&b].origin != v,
            Hit::FRep(f, b) => s.e[&b].face != f,
            _ => true,
        };
        c.phase(format!("check:{kind}"));
        let r = MeshChecker::check(&m);
        if broken {
            c.check(t.wellformed().is_err(), "harness:oracle", || format!("{h:?} isn't seen by the oracle"));
            c.check(r.is_err(), &format!("misses:{kind}"), || format!("check() accepts the mesh after the corruption {h:?}: {:?} ", s.e));
            c.count(&format!("corrupt:{kind}"));
        } else {
            c.check(r.is_ok(), &format!("rejects:{kind}"), || format!("check() rejects the harmless change {h:?}: {r:?}"));
            c.count("harmless");
        }
    }
    c.state(s.hash());
}

fn c33(c: &mut Case) {
    match c.rng.below(3) {
        0 => c33_t::<TT<usize, usize, usize>>(c),
        1 => c33_t::<TT<u16, u16, u8>>(c),
        _ => c33_t::<TT<u32, u32, u16>>(c),
    }
}

pub fn props() -> Vec<Property> {
    vec![
        Property {
            id: "C04",
            workloads: vec![w("queries", 40000, 400000, c04)],
            floors: vec![("meshes", 1000), ("vertex-on-several-boundaries", 500), ("isolated-vertex", 500), ("dangling-vertex", 500), ("face-visits-vertex-twice", 100)],
            rule: "A case is a mesh built by a random edit history; all iterators and queries of all elements and pairs of vertices are compared with values computed from a snapshot of the links. Non-trivial: at least 6 half-edges.",
            assumptions: vec!["vertex boundary-edge queries are only defined if there is exactly one such edge (asserted by the library)"],
        },
        Property {
            id: "C33",
            workloads: vec![w("corrupt", 60000, 600000, c33)],
            floors: vec![("accepted", 800), ("corrupt:next", 2000), ("corrupt:prev", 2000), ("corrupt:twin", 2000), ("corrupt:origin", 2000), ("corrupt:face", 2000), ("corrupt:vertex-edge", 2000), ("corrupt:face-edge", 2000), ("exhaustive", 20)],
            rule: "A case is a well-formed mesh without wire edges, in which single links are redirected to other existing elements (all redirections in some of the small meshes, random and neighbouring ones in the others); the consistency check must reject exactly those that break an invariant. Non-trivial: the mesh has edges.",
            assumptions: vec!["links are redirected to existing elements only"],
        },
    ]
}
