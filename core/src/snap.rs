//! Observation of a half-edge mesh through its public accessors, and an independent definition of
//! what a well-formed half-edge mesh is.

use procedural_modelling::prelude::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

pub const NO: usize = usize::MAX;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct He {
    pub origin: usize,
    pub twin: usize,
    pub next: usize,
    pub prev: usize,
    pub face: usize,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Fa {
    pub edge: usize,
    pub curved: bool,
}

#[derive(Clone, Default, Debug, PartialEq)]
pub struct Snap {
    /// vertex -> representative outgoing half-edge
    pub v: BTreeMap<usize, usize>,
    pub e: BTreeMap<usize, He>,
    pub f: BTreeMap<usize, Fa>,
}

pub fn ix<I: IndexType>(i: I) -> usize {
    if i == IndexType::max() {
        NO
    } else {
        i.index()
    }
}

pub type Bad = (String, String);

fn bad<T>(sig: &str, msg: String) -> Result<T, Bad> {
    Err((sig.to_string(), msg))
}

/// Reads all links. Fails if an id is reported twice or does not give the element back.
pub fn snap<T: HalfEdgeImplMeshType>(m: &HalfEdgeMeshImpl<T>) -> Result<Snap, Bad> {
    let mut s = Snap::default();
    for v in MeshBasics::vertices(m) {
        let id = ix(v.id());
        if id == NO || s.v.insert(id, ix(VertexBasics::edge_id(v, m))).is_some() {
            return bad("ids", format!("vertex id {id} is reported twice or invalid"));
        }
        if !m.has_vertex(v.id()) || ix(m.vertex(v.id()).id()) != id {
            return bad("ids", format!("vertex {id} is iterated but cannot be looked up"));
        }
    }
    for e in MeshBasics::edges(m) {
        let id = ix(e.id());
        let he = He { origin: ix(e.origin_id()), twin: ix(e.twin_id()), next: ix(e.next_id()), prev: ix(e.prev_id()), face: ix(e.face_id()) };
        if id == NO || s.e.insert(id, he).is_some() {
            return bad("ids", format!("edge id {id} is reported twice or invalid"));
        }
        if ix(m.edge(e.id()).id()) != id {
            return bad("ids", format!("edge {id} is iterated but cannot be looked up"));
        }
    }
    for f in MeshBasics::faces(m) {
        let id = ix(f.id());
        if id == NO || s.f.insert(id, Fa { edge: ix(FaceBasics::edge_id(f)), curved: f.may_be_curved() }).is_some() {
            return bad("ids", format!("face id {id} is reported twice or invalid"));
        }
        if ix(m.face(f.id()).id()) != id {
            return bad("ids", format!("face {id} is iterated but cannot be looked up"));
        }
    }
    if m.num_vertices() != s.v.len() || m.num_edges() != s.e.len() || m.num_faces() != s.f.len() {
        return bad(
            "counts",
            format!(
                "the mesh reports {}/{}/{} vertices/half-edges/faces but iterates {}/{}/{}",
                m.num_vertices(), m.num_edges(), m.num_faces(), s.v.len(), s.e.len(), s.f.len()
            ),
        );
    }
    if m.is_open() != s.e.values().any(|e| e.face == NO) {
        return bad("is-open", format!("is_open() = {}", m.is_open()));
    }
    if s.v.keys().last().is_some_and(|l| *l >= m.max_vertex_index()) {
        return bad("max-index", format!("max_vertex_index() = {} but vertex {} exists", m.max_vertex_index(), s.v.keys().last().unwrap()));
    }
    Ok(s)
}

#[derive(Clone, Debug, Default)]
pub struct Info {
    pub components: usize,
    pub isolated: usize,
    pub boundary_loops: usize,
    pub wires: usize,
    pub boundary_edges: usize,
    /// V - E + F
    pub euler: i64,
}

impl Snap {
    pub fn target(&self, e: usize) -> usize {
        self.e[&self.e[&e].twin].origin
    }
    /// The cycle of next links starting at e (stops after all edges were seen).
    pub fn cycle(&self, e: usize) -> Vec<usize> {
        let mut r = vec![e];
        let mut x = self.e[&e].next;
        while x != e && r.len() <= self.e.len() {
            r.push(x);
            x = self.e[&x].next;
        }
        r
    }
    /// The outgoing edges of the wheel of v in clockwise order.
    pub fn wheel(&self, v: usize) -> Vec<usize> {
        let s = self.v[&v];
        if s == NO {
            return vec![];
        }
        let mut r = vec![s];
        let mut x = self.e[&self.e[&s].twin].next;
        while x != s && r.len() <= self.e.len() {
            r.push(x);
            x = self.e[&self.e[&x].twin].next;
        }
        r
    }
    pub fn shared(&self, v: usize, w: usize) -> Option<usize> {
        self.wheel(v).into_iter().find(|e| self.target(*e) == w)
    }
    pub fn face_verts(&self, f: usize) -> Vec<usize> {
        self.cycle(self.f[&f].edge).into_iter().map(|e| self.e[&e].origin).collect()
    }
    pub fn boundary_out(&self, v: usize) -> Vec<usize> {
        self.wheel(v).into_iter().filter(|e| self.e[e].face == NO).collect()
    }
    pub fn hash(&self) -> u64 {
        let mut h = 7u64;
        for (i, e) in &self.e {
            for x in [*i, e.origin, e.twin, e.next, e.prev, e.face] {
                h = vmon::mix(h, x as u64);
            }
        }
        for f in self.f.keys() {
            h = vmon::mix(h, *f as u64 ^ 0x55);
        }
        h
    }
    /// A hash that does not depend on ids of edges and faces
    pub fn shape_hash(&self) -> u64 {
        let mut h = 0u64;
        for (_, e) in &self.e {
            let d = self.wheel(e.origin).len();
            h = h.wrapping_add(vmon::mix(d as u64, (e.face == NO) as u64));
        }
        vmon::mix(vmon::mix(h, self.v.len() as u64), vmon::mix(self.e.len() as u64, self.f.len() as u64))
    }

    /// The independent definition of a well-formed half-edge mesh.
    pub fn wellformed(&self) -> Result<Info, Bad> {
        let mut pairs: HashSet<(usize, usize)> = HashSet::with_capacity(self.e.len());
        for (&i, e) in &self.e {
            if e.twin == i {
                return bad("twin", format!("half-edge {i} is its own twin"));
            }
            let Some(t) = self.e.get(&e.twin) else { return bad("dangling", format!("twin {} of half-edge {i} does not exist", e.twin)) };
            if t.twin != i {
                return bad("twin", format!("half-edge {i} has twin {} whose twin is {}", e.twin, t.twin));
            }
            let Some(n) = self.e.get(&e.next) else { return bad("dangling", format!("next {} of half-edge {i} does not exist", e.next)) };
            let Some(p) = self.e.get(&e.prev) else { return bad("dangling", format!("prev {} of half-edge {i} does not exist", e.prev)) };
            if n.prev != i {
                return bad("next-prev", format!("half-edge {i} has next {} whose prev is {}", e.next, n.prev));
            }
            if p.next != i {
                return bad("next-prev", format!("half-edge {i} has prev {} whose next is {}", e.prev, p.next));
            }
            if n.origin != t.origin {
                return bad("origin", format!("half-edge {i}: next starts at {} but the twin starts at {}", n.origin, t.origin));
            }
            if !self.v.contains_key(&e.origin) {
                return bad("dangling", format!("origin {} of half-edge {i} does not exist", e.origin));
            }
            if e.origin == t.origin {
                return bad("self-loop", format!("half-edge {i} connects vertex {} with itself", e.origin));
            }
            if !pairs.insert((e.origin, t.origin)) {
                return bad("parallel", format!("there is more than one half-edge from {} to {}", e.origin, t.origin));
            }
            if n.face != e.face {
                return bad("face-const", format!("half-edge {i} has face {} but its next {} has face {}", e.face as isize, e.next, n.face as isize));
            }
            if e.face != NO && !self.f.contains_key(&e.face) {
                return bad("dangling", format!("face {} of half-edge {i} does not exist", e.face));
            }
        }
        // cycles
        let mut seen: HashSet<usize> = HashSet::with_capacity(self.e.len());
        let mut face_cycle: HashMap<usize, usize> = HashMap::new();
        let mut info = Info::default();
        for (&i, e) in &self.e {
            if seen.contains(&i) {
                continue;
            }
            let c = self.cycle(i);
            if c.len() > self.e.len() {
                return bad("cycle", format!("following next from half-edge {i} does not come back to it"));
            }
            seen.extend(c.iter().copied());
            if e.face == NO {
                info.boundary_loops += 1;
                info.boundary_edges += c.len();
            } else {
                if c.len() < 3 {
                    return bad("degenerate-face", format!("face {} has only {} edges", e.face, c.len()));
                }
                if let Some(o) = face_cycle.insert(e.face, i) {
                    return bad("face-split", format!("face {} owns the separate cycles of half-edges {o} and {i}", e.face));
                }
            }
            if e.face == NO && self.e[&e.twin].face == NO && e.twin > i {
                // counted below
            }
        }
        for (&f, fa) in &self.f {
            let Some(e) = self.e.get(&fa.edge) else { return bad("dangling", format!("representative {} of face {f} does not exist", fa.edge)) };
            if e.face != f {
                return bad("face-rep", format!("the representative {} of face {f} belongs to face {}", fa.edge, e.face as isize));
            }
            if !face_cycle.contains_key(&f) {
                return bad("face-rep", format!("face {f} has no cycle"));
            }
        }
        for (&i, e) in &self.e {
            if e.twin > i && e.face == NO && self.e[&e.twin].face == NO {
                info.wires += 1;
            }
        }
        // vertices
        let mut out: HashMap<usize, usize> = HashMap::with_capacity(self.v.len());
        for e in self.e.values() {
            *out.entry(e.origin).or_insert(0) += 1;
        }
        for (&v, &e) in &self.v {
            let n = out.get(&v).copied().unwrap_or(0);
            if e == NO {
                info.isolated += 1;
                if n != 0 {
                    return bad("vertex-rep", format!("vertex {v} has {n} outgoing half-edges but no representative"));
                }
                continue;
            }
            match self.e.get(&e) {
                None => return bad("vertex-rep", format!("representative {e} of vertex {v} does not exist")),
                Some(x) if x.origin != v => return bad("vertex-rep", format!("representative {e} of vertex {v} starts at {}", x.origin)),
                _ => {}
            }
            let w = self.wheel(v).len();
            if w != n {
                return bad("wheel", format!("the wheel of vertex {v} reaches {w} of its {n} outgoing half-edges"));
            }
        }
        // components
        let mut comp: HashSet<usize> = HashSet::new();
        let mut adj: HashMap<usize, Vec<usize>> = HashMap::new();
        for (_, e) in &self.e {
            adj.entry(e.origin).or_default().push(self.e[&e.twin].origin);
        }
        for &v in self.v.keys() {
            if comp.contains(&v) {
                continue;
            }
            info.components += 1;
            let mut stack = vec![v];
            comp.insert(v);
            while let Some(x) = stack.pop() {
                for &y in adj.get(&x).map(|x| x.as_slice()).unwrap_or(&[]) {
                    if comp.insert(y) {
                        stack.push(y);
                    }
                }
            }
        }
        info.euler = self.v.len() as i64 - (self.e.len() / 2) as i64 + self.f.len() as i64;
        Ok(info)
    }

    /// Boundary cycles as lists of half-edges.
    pub fn boundary_cycles(&self) -> Vec<Vec<usize>> {
        let mut seen = BTreeSet::new();
        let mut r = vec![];
        for (&i, e) in &self.e {
            if e.face == NO && !seen.contains(&i) {
                let c = self.cycle(i);
                seen.extend(c.iter().copied());
                r.push(c);
            }
        }
        r
    }
}

/// Snapshot + well-formedness in one go.
pub fn observe<T: HalfEdgeImplMeshType>(m: &HalfEdgeMeshImpl<T>) -> Result<(Snap, Info), Bad> {
    let s = snap(m)?;
    let i = s.wellformed()?;
    Ok((s, i))
}

/// Well-formedness monitor with the signature prefix `wf:`.
pub fn monitor<T: HalfEdgeImplMeshType>(c: &mut vmon::Case, m: &HalfEdgeMeshImpl<T>, what: &str) -> (Snap, Info) {
    match observe(m) {
        Ok(x) => {
            c.check(true, "", String::new);
            x
        }
        Err((sig, msg)) => {
            c.fail(&format!("wf:{sig}:{what}"), msg);
            // only reached if this is a recorded finding
            (Snap::default(), Info::default())
        }
    }
}
