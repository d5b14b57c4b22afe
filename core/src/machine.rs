//! Stateful workload: random histories of edit operations on a half-edge mesh, next to an exact
//! reference model of all links, ids and payloads.

use crate::snap::*;
use crate::types::*;
use procedural_modelling::prelude::*;
use std::collections::{BTreeMap, BTreeSet};
use vmon::Case;

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Model {
    pub s: Snap,
    pub vp: BTreeMap<usize, u64>,
    pub ep: BTreeMap<usize, u64>,
    pub fp: BTreeMap<usize, u64>,
    pub mp: u64,
}

/// Reads everything from the mesh.
pub fn read<T: TaggedG>(m: &HalfEdgeMeshImpl<T>) -> Result<Model, Bad> {
    let s = snap::<T>(m)?;
    let mut r = Model { s, ..Default::default() };
    for v in MeshBasics::vertices(m) {
        r.vp.insert(ix(v.id()), v.payload().tag());
    }
    for e in MeshBasics::edges(m) {
        r.ep.insert(ix(e.id()), EdgeBasics::payload(e).0);
    }
    for f in MeshBasics::faces(m) {
        r.fp.insert(ix(f.id()), FaceBasics::payload(f).0);
    }
    r.mp = MeshBasics::payload(m).0;
    Ok(r)
}

impl Model {
    fn link(&mut self, a: usize, b: usize) {
        self.s.e.get_mut(&a).unwrap().next = b;
        self.s.e.get_mut(&b).unwrap().prev = a;
    }
    fn new_pair(&mut self, (e1, o1, p1): (usize, usize, u64), (e2, o2, p2): (usize, usize, u64)) {
        self.s.e.insert(e1, He { origin: o1, twin: e2, next: e2, prev: e2, face: NO });
        self.s.e.insert(e2, He { origin: o2, twin: e1, next: e1, prev: e1, face: NO });
        self.ep.insert(e1, p1);
        self.ep.insert(e2, p2);
    }
    fn new_vertex(&mut self, v: usize, p: u64) {
        self.s.v.insert(v, NO);
        self.vp.insert(v, p);
    }
    fn set_face(&mut self, e: usize, f: usize, fp: u64, curved: bool) {
        for x in self.s.cycle(e) {
            self.s.e.get_mut(&x).unwrap().face = f;
        }
        self.s.f.insert(f, Fa { edge: e, curved });
        self.fp.insert(f, fp);
    }
    /// Compares everything but the representatives.
    pub fn diff(&self, real: &Model) -> Option<(String, String)> {
        let keys = |m: &BTreeMap<usize, u64>| m.keys().copied().collect::<BTreeSet<_>>();
        if keys(&self.vp) != keys(&real.vp) {
            return Some(("vertex-set".into(), format!("expected vertices {:?} but found {:?}", self.vp.keys(), real.vp.keys())));
        }
        if keys(&self.ep) != keys(&real.ep) {
            return Some(("edge-set".into(), format!("expected half-edges {:?} but found {:?}", self.ep.keys(), real.ep.keys())));
        }
        if keys(&self.fp) != keys(&real.fp) {
            return Some(("face-set".into(), format!("expected faces {:?} but found {:?}", self.fp.keys(), real.fp.keys())));
        }
        for (i, e) in &self.s.e {
            let r = real.s.e[i];
            if *e != r {
                return Some(("links".into(), format!("half-edge {i}: expected {e:?} but found {r:?}")));
            }
            if self.ep[i] != real.ep[i] {
                return Some(("edge-payload".into(), format!("half-edge {i}: expected payload {} but found {}", self.ep[i], real.ep[i])));
            }
        }
        for (i, p) in &self.vp {
            if *p != real.vp[i] {
                return Some(("vertex-payload".into(), format!("vertex {i}: expected payload {p} but found {}", real.vp[i])));
            }
        }
        for (i, p) in &self.fp {
            if *p != real.fp[i] {
                return Some(("face-payload".into(), format!("face {i}: expected payload {p} but found {}", real.fp[i])));
            }
            if self.s.f[i].curved != real.s.f[i].curved {
                return Some(("face-curved".into(), format!("face {i}: expected curved flag {}", self.s.f[i].curved)));
            }
        }
        if self.mp != real.mp {
            return Some(("mesh-payload".into(), format!("expected mesh payload {} but found {}", self.mp, real.mp)));
        }
        None
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub enum Op {
    AddVertex,
    IsolatedEdge,
    ViaVertex,
    ViaEdge,
    EdgeBetween,
    InsertEdge,
    CloseFace,
    CloseFaceVertices,
    CloseHole,
    RemoveFace,
    SplitEdge,
    FlipEdge,
    FlipMesh,
    Subdivide,
    Path,
    Loop,
    Payloads,
    Clone,
    Clear,
}
use Op::*;

pub const ALL: &[(Op, u32)] = &[
    (AddVertex, 6),
    (IsolatedEdge, 5),
    (ViaVertex, 10),
    (ViaEdge, 14),
    (EdgeBetween, 14),
    (InsertEdge, 12),
    (CloseFace, 14),
    (CloseFaceVertices, 8),
    (CloseHole, 16),
    (RemoveFace, 12),
    (SplitEdge, 10),
    (FlipEdge, 6),
    (FlipMesh, 2),
    (Subdivide, 6),
    (Path, 3),
    (Loop, 5),
    (Payloads, 4),
    (Clone, 1),
    (Clear, 1),
];

pub const SPLIT: &[(Op, u32)] = &[(IsolatedEdge, 2), (ViaEdge, 4), (EdgeBetween, 4), (InsertEdge, 6), (CloseFace, 8), (CloseHole, 8), (RemoveFace, 2), (SplitEdge, 24), (Subdivide, 24), (Loop, 4), (Path, 2)];
pub const FLIP: &[(Op, u32)] = &[(IsolatedEdge, 3), (ViaVertex, 4), (ViaEdge, 4), (EdgeBetween, 4), (InsertEdge, 6), (CloseFace, 8), (CloseHole, 8), (RemoveFace, 3), (SplitEdge, 3), (FlipEdge, 30), (FlipMesh, 10), (Loop, 4), (Path, 2)];
pub const REUSE: &[(Op, u32)] = &[(IsolatedEdge, 1), (InsertEdge, 6), (CloseFace, 14), (CloseFaceVertices, 6), (CloseHole, 30), (RemoveFace, 40), (SplitEdge, 3), (Loop, 6), (Clone, 1), (Clear, 1)];

pub struct Machine<T: TaggedG> {
    pub m: HalfEdgeMeshImpl<T>,
    /// the model after the previous step
    pub a: Model,
    tag: u64,
    pub limit: usize,
    /// factor for the lengths of chains in large meshes
    mul: usize,
    /// check only the well-formedness
    pub wf_only: bool,
    pub removed_once: bool,
}

/// The size of a mesh: usually one of the given ones, rarely a large one.
pub fn size(c: &mut Case, small: &[usize]) -> usize {
    if !cfg!(miri) && c.rng.chance(0.007) {
        c.count("large");
        220
    } else {
        *c.rng.pick(small)
    }
}

fn v<T: TaggedG>(i: usize) -> T::V {
    T::V::new(i)
}
fn e<T: TaggedG>(i: usize) -> T::E {
    T::E::new(i)
}
fn vp<T: TaggedG>(tag: u64) -> T::VP {
    T::VP::mk(tag)
}
fn f<T: TaggedG>(i: usize) -> T::F {
    T::F::new(i)
}

impl<T: TaggedG> Machine<T> {
    pub fn new(limit: usize, wf_only: bool) -> Self {
        Machine { m: HalfEdgeMeshImpl::<T>::new(), a: Model::default(), tag: 1, limit, mul: if limit >= 100 { 12 } else { 1 }, wf_only, removed_once: false }
    }
    /// A copy of the mesh and the model.
    pub fn fork(&self) -> Self {
        Machine { m: self.m.clone(), a: self.a.clone(), tag: self.tag, limit: self.limit, mul: self.mul, wf_only: self.wf_only, removed_once: self.removed_once }
    }
    fn p(&mut self) -> u64 {
        self.tag += 1;
        self.tag
    }

    fn verify(&mut self, c: &mut Case, op: Op, exp: Model, ctx: &str) {
        let real = match read::<T>(&self.m) {
            Ok(r) => r,
            Err((sig, msg)) => {
                c.fail(&format!("wf:{sig}:{op:?}"), format!("after {ctx}: {msg}"));
                return;
            }
        };
        if cfg!(miri) {
            // the interpreter is far too slow for the oracles, and only its own judgement counts
            c.count("step");
            self.a = real;
            return;
        }
        match real.s.wellformed() {
            Err((sig, msg)) => {
                c.fail(&format!("wf:{sig}:{op:?}"), format!("after {ctx}: {msg}"));
            }
            Ok(i) => {
                c.check(true, "", String::new);
                let ok = MeshChecker::check(&self.m);
                if i.wires == 0 {
                    c.check(ok.is_ok(), &format!("checker-rejects:{op:?}"), || format!("after {ctx}: the mesh is well-formed but check() says {ok:?}"));
                }
                c.max("vertices", real.s.v.len() as u64);
                c.max("faces", real.s.f.len() as u64);
                c.max("boundary_loops", i.boundary_loops as u64);
                c.max("components", i.components as u64);
            }
        }
        if !self.wf_only {
            if let Some((sig, msg)) = exp.diff(&real) {
                c.fail(&format!("diff:{sig}:{op:?}"), format!("after {ctx}: {msg}"));
            } else {
                c.check(true, "", String::new);
            }
        }
        c.state(real.s.hash());
        c.count(&format!("op:{op:?}"));
        self.a = real;
    }

    /// ids that are new in the mesh
    fn fresh(&self) -> (Vec<usize>, Vec<usize>, Vec<usize>) {
        let nv = MeshBasics::vertices(&self.m).map(|x| ix(x.id())).filter(|x| !self.a.s.v.contains_key(x)).collect();
        let ne = MeshBasics::edges(&self.m).map(|x| ix(x.id())).filter(|x| !self.a.s.e.contains_key(x)).collect();
        let nf = MeshBasics::faces(&self.m).map(|x| ix(x.id())).filter(|x| !self.a.s.f.contains_key(x)).collect();
        (nv, ne, nf)
    }
    fn need_fresh(&self, c: &mut Case, op: Op, vs: &[usize], es: &[usize], fs: &[usize]) {
        let dup = |x: &[usize]| x.iter().collect::<BTreeSet<_>>().len() != x.len();
        let ok = vs.iter().all(|x| !self.a.s.v.contains_key(x) && *x != NO)
            && es.iter().all(|x| !self.a.s.e.contains_key(x) && *x != NO)
            && fs.iter().all(|x| !self.a.s.f.contains_key(x) && *x != NO)
            && !dup(vs)
            && !dup(es)
            && !dup(fs);
        c.check(ok, &format!("diff:fresh:{op:?}"), || format!("returned ids {vs:?} {es:?} {fs:?} are not all new"));
    }

    /// One random step. Returns whether something was applicable.
    pub fn step(&mut self, c: &mut Case, ops: &[(Op, u32)]) -> bool {
        let total: u32 = ops.iter().map(|x| x.1).sum();
        let mut r = c.rng.below(total as usize) as u32;
        let mut op = ops[0].0;
        for (o, w) in ops {
            if r < *w {
                op = *o;
                break;
            }
            r -= w;
        }
        if self.mul > 1 && c.rng.chance(0.4) {
            op = *c.rng.pick(&[ViaVertex, ViaEdge, CloseFace, InsertEdge, CloseHole]);
        }
        self.run(c, op)
    }

    fn pick(c: &mut Case, v: &[usize]) -> Option<usize> {
        if v.is_empty() {
            None
        } else {
            Some(*c.rng.pick(v))
        }
    }

    /// inside/outside pairs for which a new edge may be inserted; picks one at random
    fn edge_slot(&self, c: &mut Case) -> Option<(usize, usize)> {
        let s = &self.a.s;
        let cyc: Vec<Vec<usize>> = s.boundary_cycles().into_iter().filter(|x| x.len() >= 4).collect();
        if cyc.is_empty() {
            return None;
        }
        for _ in 0..12 {
            let cy = c.rng.pick(&cyc).clone();
            let mut i = *c.rng.pick(&cy);
            if self.mul > 1 && c.rng.chance(0.6) {
                i = *cy.iter().min_by_key(|e| s.target(**e)).unwrap();
            }
            let o = *c.rng.pick(&cy);
            let (x, y) = (s.target(i), s.target(o));
            if x != y && s.shared(x, y).is_none() {
                return Some((i, o));
            }
        }
        None
    }

    pub fn run(&mut self, c: &mut Case, op: Op) -> bool {
        let s = self.a.s.clone();
        // in large meshes, half of the vertices come from long chains
        let chain = self.mul > 1 && matches!(op, Path | Loop | SplitEdge);
        let big = s.v.len() >= if chain { self.limit / 2 } else { self.limit };
        let mut x = self.a.clone();
        let ctx;
        c.phase(format!("{op:?}"));
        match op {
            AddVertex => {
                if big {
                    return false;
                }
                let p = self.p();
                let id = ix(self.m.add_vertex(vp::<T>(p)));
                ctx = format!("add_vertex(#{p}) -> {id}");
                c.log(&ctx);
                self.need_fresh(c, op, &[id], &[], &[]);
                x.new_vertex(id, p);
            }
            IsolatedEdge => {
                if big {
                    return false;
                }
                let (a, ea, b, eb) = (self.p(), self.p(), self.p(), self.p());
                let (v0, v1) = self.m.add_isolated_edge(vp::<T>(a), Pay(ea), vp::<T>(b), Pay(eb));
                let (v0, v1) = (ix(v0), ix(v1));
                ctx = format!("add_isolated_edge(#{a}, #{b}) -> vertices {v0}, {v1}");
                c.log(&ctx);
                let (_, ne, _) = self.fresh();
                c.check(ne.len() == 2, "diff:edge-set:IsolatedEdge", || format!("{} new half-edges", ne.len()));
                let (e0, e1) = if self.m.edge(e::<T>(ne[0])).origin_id() == v::<T>(v0) { (ne[0], ne[1]) } else { (ne[1], ne[0]) };
                self.need_fresh(c, op, &[v0, v1], &[e0, e1], &[]);
                x.new_vertex(v0, a);
                x.new_vertex(v1, b);
                x.new_pair((e0, v0, ea), (e1, v1, eb));
            }
            ViaVertex | ViaEdge => {
                if big {
                    return false;
                }
                let (p, p1, p2) = (self.p(), self.p(), self.p());
                let (input, output);
                let res;
                let dft = c.rng.chance(0.2);
                if op == ViaVertex {
                    let cand: Vec<usize> = s
                        .v
                        .keys()
                        .copied()
                        .filter(|&v| s.v[&v] != NO && {
                            let b = s.boundary_out(v);
                            b.len() == 1
                        })
                        .collect();
                    let hub = cand.first().copied();
                    let Some(at) = (if self.mul > 1 && c.rng.chance(0.7) { hub } else { Self::pick(c, &cand) }) else { return false };
                    output = s.boundary_out(at)[0];
                    input = s.e[&output].prev;
                    ctx = format!("add_vertex_via_vertex({at}, #{p}) default={dft}");
                    c.log(&ctx);
                    res = if dft { self.m.add_vertex_via_vertex_default(v::<T>(at), vp::<T>(p)) } else { self.m.add_vertex_via_vertex(v::<T>(at), vp::<T>(p), Pay(p1), Pay(p2)) };
                } else {
                    let mut cand: Vec<usize> = s.e.iter().filter(|(_, e)| e.face == NO).map(|x| *x.0).collect();
                    if self.mul > 1 && c.rng.chance(0.7) {
                        // a vertex of high degree
                        let hub = cand.iter().map(|e| s.target(*e)).min();
                        cand.retain(|e| Some(s.target(*e)) == hub);
                    }
                    let Some(i) = Self::pick(c, &cand) else { return false };
                    input = i;
                    output = s.e[&i].next;
                    ctx = format!("add_vertex_via_edge({input}, {output}, #{p}) default={dft}");
                    c.log(&ctx);
                    res = if dft {
                        self.m.add_vertex_via_edge_default(e::<T>(input), e::<T>(output), vp::<T>(p))
                    } else {
                        self.m.add_vertex_via_edge(e::<T>(input), e::<T>(output), vp::<T>(p), Pay(p1), Pay(p2))
                    };
                }
                let (p1, p2) = if dft { (0, 0) } else { (p1, p2) };
                let (nv, e1, e2) = (ix(res.0), ix(res.1), ix(res.2));
                self.need_fresh(c, op, &[nv], &[e1, e2], &[]);
                x.new_vertex(nv, p);
                let at = s.target(input);
                x.new_pair((e1, at, p1), (e2, nv, p2));
                x.link(input, e1);
                x.link(e1, e2);
                x.link(e2, output);
            }
            EdgeBetween => {
                let cand: Vec<usize> = s.v.keys().copied().filter(|&v| s.v[&v] == NO || s.boundary_out(v).len() == 1).collect();
                if cand.len() < 2 {
                    return false;
                }
                let mut found = None;
                for _ in 0..8 {
                    let (a, b) = (*c.rng.pick(&cand), *c.rng.pick(&cand));
                    if a != b && s.shared(a, b).is_none() {
                        found = Some((a, b));
                        break;
                    }
                }
                let Some((a, b)) = found else { return false };
                let (p1, p2) = (self.p(), self.p());
                ctx = format!("insert_edge_between({a}, {b})");
                c.log(&ctx);
                let (e0, e1) = self.m.insert_edge_between(v::<T>(a), Pay(p1), v::<T>(b), Pay(p2));
                let (e0, e1) = (ix(e0), ix(e1));
                self.need_fresh(c, op, &[], &[e0, e1], &[]);
                x.new_pair((e0, a, p1), (e1, b, p2));
                if s.v[&b] != NO {
                    let n = s.boundary_out(b)[0];
                    let pr = s.e[&n].prev;
                    x.link(e0, n);
                    x.link(pr, e1);
                    c.count("joined-two-wheels");
                } else {
                    x.link(e0, e1);
                }
                if s.v[&a] != NO {
                    let n = s.boundary_out(a)[0];
                    let pr = s.e[&n].prev;
                    x.link(e1, n);
                    x.link(pr, e0);
                } else {
                    x.link(e1, e0);
                }
            }
            InsertEdge | CloseFace => {
                let Some((i, o)) = self.edge_slot(c) else { return false };
                let (p1, p2, pf) = (self.p(), self.p(), self.p());
                let curved = c.rng.chance(0.3);
                let (vv, ww) = (s.target(i), s.target(o));
                let (ni, no) = (s.e[&i].next, s.e[&o].next);
                let (e1, e2, face);
                let mut pays = (p1, p2, pf);
                if op == InsertEdge {
                    ctx = format!("insert_edge({i}, {o})");
                    c.log(&ctx);
                    let r = self.m.insert_edge(e::<T>(i), Pay(p1), e::<T>(o), Pay(p2));
                    (e1, e2, face) = (ix(r.0), ix(r.1), NO);
                    self.need_fresh(c, op, &[], &[e1, e2], &[]);
                } else {
                    let dft = c.rng.chance(0.2);
                    ctx = format!("close_face({i}, {o}, curved={curved}) default={dft}");
                    c.log(&ctx);
                    let r = if dft {
                        pays = (0, 0, 0);
                        self.m.close_face_default(e::<T>(i), e::<T>(o), curved)
                    } else {
                        self.m.close_face(e::<T>(i), Pay(p1), e::<T>(o), Pay(p2), Pay(pf), curved)
                    };
                    (face, e1, e2) = (ix(r.0), ix(r.1), ix(r.2));
                    self.need_fresh(c, op, &[], &[e1, e2], &[face]);
                }
                x.new_pair((e1, vv, pays.0), (e2, ww, pays.1));
                x.link(i, e1);
                x.link(e1, no);
                x.link(o, e2);
                x.link(e2, ni);
                if face != NO {
                    x.set_face(e1, face, pays.2, curved);
                    if self.removed_once {
                        c.count("face-after-removal");
                    }
                }
            }
            CloseFaceVertices => {
                let mut found = None;
                for _ in 0..8 {
                    let Some((i, o)) = self.edge_slot(c) else { return false };
                    let prev = s.e[&i].origin;
                    let from = s.target(i);
                    let to = s.target(o);
                    // exactly one incoming boundary edge of `to` must see `prev`, and it must be the one of this cycle
                    let cand: Vec<usize> = s
                        .wheel(to)
                        .into_iter()
                        .map(|y| s.e[&y].twin)
                        .filter(|y| s.e[y].face == NO && s.cycle(*y).iter().any(|z| s.e[z].origin == prev))
                        .collect();
                    if cand == [o] {
                        found = Some((i, o, prev, from, to));
                        break;
                    }
                }
                let Some((i, o, prev, from, to)) = found else { return false };
                let (p1, p2, pf) = (self.p(), self.p(), self.p());
                let curved = c.rng.chance(0.3);
                ctx = format!("close_face_vertices({prev}, {from}, {to}, curved={curved})");
                c.log(&ctx);
                let dft = c.rng.chance(0.2);
                let mut pays = (p1, p2, pf);
                let r = if dft {
                    pays = (0, 0, 0);
                    self.m.close_face_vertices_default(v::<T>(prev), v::<T>(from), v::<T>(to), curved)
                } else {
                    self.m.close_face_vertices(v::<T>(prev), Pay(p1), v::<T>(from), Pay(p2), v::<T>(to), Pay(pf), curved)
                };
                let (face, e1, e2) = (ix(r.0), ix(r.1), ix(r.2));
                self.need_fresh(c, op, &[], &[e1, e2], &[face]);
                let (ni, no) = (s.e[&i].next, s.e[&o].next);
                x.new_pair((e1, from, pays.0), (e2, to, pays.1));
                x.link(i, e1);
                x.link(e1, no);
                x.link(o, e2);
                x.link(e2, ni);
                x.set_face(e1, face, pays.2, curved);
            }
            CloseHole => {
                let cand: Vec<usize> = s.e.iter().filter(|(i, e)| e.face == NO && s.cycle(**i).len() >= 3).map(|x| *x.0).collect();
                let Some(i) = Self::pick(c, &cand) else { return false };
                let pf = self.p();
                let curved = c.rng.chance(0.3);
                let dft = c.rng.chance(0.2);
                ctx = format!("close_hole({i}, curved={curved}) default={dft}");
                c.log(&ctx);
                let face = if dft { ix(self.m.close_hole_default(e::<T>(i))) } else { ix(self.m.close_hole(e::<T>(i), Pay(pf), curved)) };
                self.need_fresh(c, op, &[], &[], &[face]);
                x.set_face(i, face, if dft { 0 } else { pf }, if dft { false } else { curved });
                if self.removed_once {
                    c.count("face-after-removal");
                }
            }
            RemoveFace => {
                let cand: Vec<usize> = s.f.keys().copied().collect();
                let Some(i) = Self::pick(c, &cand) else { return false };
                ctx = format!("remove_face({i})");
                c.log(&ctx);
                let cyc = s.cycle(s.f[&i].edge);
                let p = self.m.remove_face(f::<T>(i));
                if !self.wf_only {
                    c.check(p.0 == self.a.fp[&i], "diff:returned-payload:RemoveFace", || format!("remove_face({i}) returned payload {} instead of {}", p.0, self.a.fp[&i]));
                }
                for y in &cyc {
                    x.s.e.get_mut(y).unwrap().face = NO;
                }
                x.s.f.remove(&i);
                x.fp.remove(&i);
                self.removed_once = true;
                if c.rng.chance(0.3) {
                    // round trip: closing it again gives back the same mesh (apart from the id)
                    self.verify(c, op, x, &ctx);
                    let at = *c.rng.pick(&cyc);
                    c.phase("CloseHole");
                    c.log(format!("close_hole({at}) again"));
                    let nf = ix(self.m.close_hole(e::<T>(at), p, s.f[&i].curved));
                    let mut y = self.a.clone();
                    self.need_fresh(c, CloseHole, &[], &[], &[nf]);
                    y.set_face(at, nf, p.0, s.f[&i].curved);
                    c.count("remove-close-roundtrip");
                    self.verify(c, CloseHole, y, "closing the removed face again");
                    return true;
                }
            }
            SplitEdge => {
                let cand: Vec<usize> = s.e.keys().copied().collect();
                let Some(at) = Self::pick(c, &cand) else { return false };
                let k = if big { 0 } else { c.rng.below(4) * if self.mul > 1 && c.rng.chance(0.3) { self.mul } else { 1 } };
                let pays: Vec<(u64, u64, u64)> = (0..k).map(|_| (self.p(), self.p(), self.p())).collect();
                ctx = format!("insert_vertices_into_edge({at}, {k} vertices)");
                c.log(&ctx);
                let first = ix(self.m.insert_vertices_into_edge(e::<T>(at), pays.iter().map(|p| (Pay(p.0), Pay(p.1), vp::<T>(p.2)))));
                let he = s.e[&at];
                let tw = he.twin;
                if k == 0 {
                    c.check(first == at, "diff:returned:SplitEdge", || format!("inserting nothing into {at} returned {first}"));
                } else {
                    let (nv, ne, _) = self.fresh();
                    if nv.len() != k || ne.len() != 2 * k {
                        c.fail("diff:edge-set:SplitEdge", format!("after {ctx}: {} new vertices and {} new half-edges", nv.len(), ne.len()));
                        return true;
                    }
                    // walk along the chain
                    let mut chain = vec![first];
                    for _ in 1..k {
                        let l = *chain.last().unwrap();
                        chain.push(ix(self.m.edge(e::<T>(l)).next_id()));
                    }
                    let tws: Vec<usize> = chain.iter().map(|y| ix(self.m.edge(e::<T>(*y)).twin_id())).collect();
                    let mut all = chain.clone();
                    all.extend(&tws);
                    self.need_fresh(c, op, &[], &all, &[]);
                    let mut o = he.origin;
                    let dangling = he.prev == tw;
                    let (pv, nx) = (he.prev, s.e[&tw].next);
                    let mut vs = vec![];
                    for j in 0..k {
                        // the new vertex is where the next one starts
                        let nvj = if j + 1 < k { ix(self.m.edge(e::<T>(chain[j + 1])).origin_id()) } else { ix(self.m.edge(e::<T>(at)).origin_id()) };
                        vs.push(nvj);
                    }
                    self.need_fresh(c, op, &vs, &[], &[]);
                    for j in 0..k {
                        x.new_vertex(vs[j], pays[j].2);
                        x.new_pair((chain[j], o, pays[j].0), (tws[j], vs[j], pays[j].1));
                        x.s.e.get_mut(&chain[j]).unwrap().face = he.face;
                        x.s.e.get_mut(&tws[j]).unwrap().face = s.e[&tw].face;
                        o = vs[j];
                    }
                    x.s.e.get_mut(&at).unwrap().origin = o;
                    for j in 1..k {
                        x.link(chain[j - 1], chain[j]);
                        x.link(tws[j], tws[j - 1]);
                    }
                    x.link(chain[k - 1], at);
                    x.link(tw, tws[k - 1]);
                    if dangling {
                        x.link(tws[0], chain[0]);
                        c.count("split-dangling");
                    } else {
                        x.link(pv, chain[0]);
                        x.link(tws[0], nx);
                    }
                }
            }
            Subdivide => {
                let cand: Vec<usize> = s.e.keys().copied().collect();
                let Some(at) = Self::pick(c, &cand) else { return false };
                if big {
                    return false;
                }
                let (p, p1, p2) = (self.p(), self.p(), self.p());
                let tw = s.e[&at].twin;
                ctx = format!("subdivide_unsafe({at}) and fix up {tw}");
                c.log(&ctx);
                let n1 = ix(self.m.subdivide_unsafe(e::<T>(at), vp::<T>(p), Pay(p1)));
                let n2 = self.m.subdivide_unsafe_try_fixup(e::<T>(tw), Pay(p2));
                let Some(n2) = n2 else {
                    c.fail("diff:returned:Subdivide", format!("after {ctx}: the twin could not be fixed up"));
                    return true;
                };
                let n2 = ix(n2);
                let (nv, _, _) = self.fresh();
                c.check(nv.len() == 1, "diff:vertex-set:Subdivide", || format!("{} new vertices", nv.len()));
                let nv = nv[0];
                self.need_fresh(c, op, &[nv], &[n1, n2], &[]);
                let (h, t) = (s.e[&at], s.e[&tw]);
                x.new_vertex(nv, p);
                // at: o -> nv, n1: nv -> target; tw: target -> nv, n2: nv -> o
                x.s.e.insert(n1, He { origin: nv, twin: tw, next: NO, prev: NO, face: h.face });
                x.s.e.insert(n2, He { origin: nv, twin: at, next: NO, prev: NO, face: t.face });
                x.ep.insert(n1, p1);
                x.ep.insert(n2, p2);
                x.s.e.get_mut(&at).unwrap().twin = n2;
                x.s.e.get_mut(&tw).unwrap().twin = n1;
                let (hn, tn) = (h.next, t.next);
                x.link(at, n1);
                x.link(tw, n2);
                x.link(n1, if hn == tw { tw } else { hn });
                x.link(n2, if tn == at { at } else { tn });
            }
            FlipEdge | FlipMesh => {
                let cand: Vec<usize> = s.e.keys().copied().collect();
                let ids: Vec<usize>;
                if op == FlipEdge {
                    let Some(at) = Self::pick(c, &cand) else { return false };
                    ids = vec![at];
                    ctx = format!("flip_edge({at})");
                    c.log(&ctx);
                    self.m.flip_edge(e::<T>(at));
                } else {
                    ids = cand.iter().copied().filter(|i| s.e[i].twin > *i).collect();
                    ctx = "flip()".to_string();
                    c.log(&ctx);
                    if c.rng.chance(0.5) {
                        let fl = self.m.flipped();
                        let same = read::<T>(&self.m).ok().is_some_and(|r| r == self.a);
                        c.check(same, "diff:flipped-mutates:FlipMesh", || "flipped() changed the mesh itself".into());
                        self.m = fl;
                    } else {
                        self.m.flip();
                    }
                }
                // the ids of the pair swap their roles everywhere; the payloads stay with the ids
                for at in ids {
                    let tw = s.e[&at].twin;
                    let sw = |y: usize| if y == at { tw } else if y == tw { at } else { y };
                    let mut ne = BTreeMap::new();
                    for (i, h) in &x.s.e {
                        ne.insert(sw(*i), He { origin: h.origin, twin: sw(h.twin), next: sw(h.next), prev: sw(h.prev), face: h.face });
                    }
                    x.s.e = ne;
                }
                if op == FlipEdge && c.rng.chance(0.3) {
                    self.verify(c, op, x, &ctx);
                    let at = *c.rng.pick(&cand);
                    let before = self.a.clone();
                    c.log(format!("flip_edge({at}) twice"));
                    self.m.flip_edge(e::<T>(at));
                    let tw = before.s.e[&at].twin;
                    self.m.flip_edge(e::<T>(if c.rng.chance(0.5) { at } else { tw }));
                    c.count("flip-twice");
                    self.verify(c, op, before, "flipping an edge twice");
                    return true;
                }
            }
            Path | Loop => {
                if big {
                    return false;
                }
                let n = if op == Path { c.rng.int(2, 6) } else { c.rng.int(3, 7) } * self.mul;
                let pays: Vec<u64> = (0..n).map(|_| self.p()).collect();
                let it: Vec<T::VP> = pays.iter().map(|p| vp::<T>(*p)).collect();
                ctx = format!("insert_{}({n} vertices)", if op == Path { "path" } else { "loop" });
                c.log(&ctx);
                let (first, last) = if op == Path {
                    let (a, b) = self.m.insert_path(it);
                    (ix(a), ix(b))
                } else {
                    let a = ix(self.m.insert_loop(it));
                    (a, NO)
                };
                let (nv, ne, _) = self.fresh();
                let edges = if op == Path { n - 1 } else { n };
                if nv.len() != n || ne.len() != 2 * edges {
                    c.fail(&format!("diff:edge-set:{op:?}"), format!("after {ctx}: {} new vertices, {} new half-edges", nv.len(), ne.len()));
                    return true;
                }
                // vertices by payload
                let mut vs = vec![];
                for p in &pays {
                    match nv.iter().find(|i| self.m.vertex(v::<T>(**i)).payload().tag() == *p) {
                        Some(i) => vs.push(*i),
                        None => {
                            c.fail(&format!("diff:vertex-payload:{op:?}"), format!("after {ctx}: payload {p} is missing"));
                            return true;
                        }
                    }
                    x.new_vertex(*vs.last().unwrap(), *p);
                }
                // expected edges between consecutive vertices; take their ids from the mesh
                let (mut fw, mut bw) = (vec![], vec![]);
                for j in 0..edges {
                    let (a, b) = (vs[j], vs[(j + 1) % n]);
                    let find = |a: usize, b: usize| {
                        ne.iter().copied().find(|i| {
                            let h = self.m.edge(e::<T>(*i));
                            ix(h.origin_id()) == a && ix(self.m.edge(h.twin_id()).origin_id()) == b
                        })
                    };
                    let (Some(ab), Some(ba)) = (find(a, b), find(b, a)) else {
                        c.fail(&format!("diff:links:{op:?}"), format!("after {ctx}: vertices {a} and {b} are not connected"));
                        return true;
                    };
                    fw.push(ab);
                    bw.push(ba);
                    x.new_pair((ab, a, 0), (ba, b, 0));
                }
                for j in 1..edges {
                    x.link(fw[j - 1], fw[j]);
                    x.link(bw[j], bw[j - 1]);
                }
                if op == Path {
                    x.link(fw[edges - 1], bw[edges - 1]);
                    x.link(bw[0], fw[0]);
                    c.check(first == bw[0] && last == fw[edges - 1], "diff:returned:Path", || {
                        format!("after {ctx}: returned {first}, {last} instead of the edges pointing to the first and last vertex {}, {}", bw[0], fw[edges - 1])
                    });
                } else {
                    x.link(fw[edges - 1], fw[0]);
                    x.link(bw[0], bw[edges - 1]);
                    c.check(first == bw[0], "diff:returned:Loop", || format!("after {ctx}: returned half-edge {first} instead of {} that points to the first vertex", bw[0]));
                }
            }
            Payloads => {
                ctx = "payload mutation".to_string();
                c.log(&ctx);
                let p = self.p();
                self.m.set_payload(Pay(p));
                x.mp = p;
                if let Some(i) = Self::pick(c, &s.v.keys().copied().collect::<Vec<_>>()) {
                    let p = self.p();
                    *self.m.vertex_mut(v::<T>(i)).payload_mut() = vp::<T>(p);
                    x.vp.insert(i, p);
                }
                if let Some(i) = Self::pick(c, &s.e.keys().copied().collect::<Vec<_>>()) {
                    let p = self.p();
                    *EdgeBasics::payload_mut(self.m.edge_mut(e::<T>(i))) = Pay(p);
                    x.ep.insert(i, p);
                }
                if let Some(i) = Self::pick(c, &s.f.keys().copied().collect::<Vec<_>>()) {
                    let p = self.p();
                    *FaceBasics::payload_mut(self.m.face_mut(f::<T>(i))) = Pay(p);
                    x.fp.insert(i, p);
                }
                if c.rng.chance(0.3) {
                    for y in MeshBasics::vertices_mut(&mut self.m) {
                        let id = ix(y.id());
                        let t = y.payload().tag() + 1_000_000;
                        y.payload_mut().set_tag(t);
                        *x.vp.get_mut(&id).unwrap() += 1_000_000;
                    }
                    for y in MeshBasics::edges_mut(&mut self.m) {
                        let id = ix(y.id());
                        EdgeBasics::payload_mut(y).0 += 1_000_000;
                        *x.ep.get_mut(&id).unwrap() += 1_000_000;
                    }
                    for y in MeshBasics::faces_mut(&mut self.m) {
                        let id = ix(y.id());
                        FaceBasics::payload_mut(y).0 += 1_000_000;
                        *x.fp.get_mut(&id).unwrap() += 1_000_000;
                    }
                }
            }
            Clone => {
                ctx = "continuing on a clone".to_string();
                c.log(&ctx);
                let old = std::mem::take(&mut self.m);
                self.m = old.clone();
                let r = read::<T>(&old);
                c.check(r.as_ref().is_ok_and(|r| *r == self.a), "diff:clone:Clone", || "cloning changed the original".into());
            }
            Clear => {
                if s.v.len() < 6 || !c.rng.chance(0.2) {
                    return false;
                }
                ctx = "clear()".to_string();
                c.log(&ctx);
                self.m.clear();
                let mp = x.mp;
                x = Model { mp, ..Default::default() };
            }
        }
        self.verify(c, op, x, &ctx);
        true
    }
}

impl<T: TaggedG> Machine<T> {
    /// Runs a history of the given length.
    pub fn history(&mut self, c: &mut Case, steps: usize, ops: &[(Op, u32)]) -> usize {
        self.history_with(c, steps, ops, |_| {})
    }
    /// Runs a history and calls `f` after every step.
    pub fn history_with(&mut self, c: &mut Case, steps: usize, ops: &[(Op, u32)], mut f: impl FnMut(&Self)) -> usize {
        let steps = if cfg!(miri) { steps.min(12) } else if self.mul > 1 { steps * 2 } else { steps };
        let mut done = 0;
        let mut tries = 0;
        while done < steps && tries < steps * 6 {
            tries += 1;
            if self.a.s.v.len() < 3 && tries % 2 == 0 {
                self.run(c, Loop);
                done += 1;
                f(self);
                continue;
            }
            if self.step(c, ops) {
                done += 1;
                f(self);
            }
        }
        done
    }
}
