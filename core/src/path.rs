//! C28 path builder.

use crate::curve::*;
use crate::geo::*;
use crate::ops::canon;
use crate::snap::*;
use procedural_modelling::extensions::nalgebra::*;
use procedural_modelling::mesh::PathBuilder;
use procedural_modelling::prelude::*;
use std::collections::BTreeMap;
use vmon::{w, Case, Property};

type PB<'a> = PathBuilder<'a, TC, NdAffine<f64, 2>>;
type VP = VertexPayloadPNU<f64, 2>;
type EP = CurvedEdgePayload<2, TC>;

/// The mesh as it has to be: links, payloads and curves.
struct Want {
    s: Snap,
    vp: BTreeMap<usize, VP>,
    curve: BTreeMap<usize, Curve>,
    start: usize,
    current: usize,
    /// the half-edge whose side gets the face
    first: Option<usize>,
    current_edges: Option<(usize, usize)>,
    drawn: Vec<(usize, usize)>,
    closed: bool,
    face: bool,
}
impl Want {
    fn of(m: &MC) -> Option<Want> {
        Some(Want {
            s: snap(m).ok()?,
            vp: MeshBasics::vertices(m).map(|v| (v.id(), *v.payload())).collect(),
            curve: m.edges().map(|e| (e.id(), e.curve_type())).collect(),
            start: NO,
            current: NO,
            first: None,
            current_edges: None,
            drawn: vec![],
            closed: false,
            face: false,
        })
    }
    /// The ingoing and outgoing boundary half-edge of the only gap of the vertex.
    fn gap(&self, v: usize) -> Option<(usize, usize)> {
        let o: Vec<usize> = self.s.e.iter().filter(|(_, h)| h.origin == v && h.face == NO).map(|(e, _)| *e).collect();
        if o.len() != 1 {
            return None;
        }
        Some((self.s.e[&o[0]].prev, o[0]))
    }
    fn isolated(&self, v: usize) -> bool {
        self.s.v[&v] == NO
    }
    fn draw(&mut self, b: usize, e: usize, t: usize, k: (Curve, Curve)) {
        let a = self.current;
        let (ga, gb) = (self.gap(a), self.gap(b));
        let (na, nb) = (self.isolated(a), self.isolated(b));
        self.s.e.insert(e, He { origin: a, twin: t, next: t, prev: t, face: NO });
        self.s.e.insert(t, He { origin: b, twin: e, next: e, prev: e, face: NO });
        let mut link = |x: usize, y: usize| {
            self.s.e.get_mut(&x).unwrap().next = y;
            self.s.e.get_mut(&y).unwrap().prev = x;
        };
        if na {
            link(t, e);
        } else {
            let (i, o) = ga.unwrap();
            link(i, e);
            link(t, o);
        }
        if nb {
            link(e, t);
        } else {
            let (i, o) = gb.unwrap();
            link(e, o);
            link(i, t);
        }
        if na {
            self.s.v.insert(a, e);
        }
        if nb {
            self.s.v.insert(b, t);
        }
        self.curve.insert(e, k.0);
        self.curve.insert(t, k.1);
        self.drawn.push((a, b));
        self.current = b;
        self.current_edges = Some((e, t));
        if self.first.is_none() {
            self.first = Some(t);
        }
        if b == self.start {
            self.closed = true;
        }
    }
    fn fill(&mut self, f: usize) {
        let e0 = self.first.unwrap();
        let mut e = e0;
        loop {
            let h = self.s.e.get_mut(&e).unwrap();
            h.face = f;
            e = h.next;
            if e == e0 {
                break;
            }
        }
        self.s.f.insert(f, Fa { edge: e0, curved: false });
        self.closed = true;
        self.face = true;
    }
}

fn state(c: &mut Case, b: &mut PB, want: &Want, what: &str) {
    c.check(b.is_closed() == want.closed, "is-closed", || format!("is_closed is {} after {what}", !want.closed));
    c.check(b.has_face() == want.face, "has-face", || format!("has_face is {} after {what}", !want.face));
    c.check(b.start_vertex() == want.start, "start-vertex", || format!("the start vertex is {} after {what} instead of {}", b.start_vertex(), want.start));
    c.check(b.current_vertex() == want.current, "current-vertex", || format!("the current vertex is {} after {what} instead of {}", b.current_vertex(), want.current));
    let f = b.start_edges().map(|x| x.0);
    c.check(f == want.first, "start-edges", || format!("the path starts at the edge {f:?} after {what} instead of {:?}", want.first));
    if !want.drawn.is_empty() {
        c.check(b.current_edges() == want.current_edges, "current-edges", || format!("the current edges are {:?} after {what} instead of {:?}", b.current_edges(), want.current_edges));
    } else {
        c.check(b.current_edges().map(|x| x.0) == want.first, "current-edges", || format!("the current edges are {:?} after {what}", b.current_edges()));
    }
}
/// The mesh has to be exactly what was expected; representatives may be any valid ones.
fn same(c: &mut Case, m: &MC, want: &Want, what: &str) {
    let Some(g) = Want::of(m) else {
        let e = snap(m).err().unwrap_or_default();
        c.fail(&format!("wf:{}", e.0), format!("after {what}: {}", e.1));
        return;
    };
    match g.s.wellformed() {
        Ok(_) => c.check(true, "", String::new),
        Err((sig, msg)) => c.fail(&format!("wf:{sig}"), format!("after {what}: {msg}")),
    };
    c.check(g.s.e == want.s.e, "links", || {
        let (x, y) = (&g.s.e, &want.s.e);
        let d: Vec<String> = x.keys().chain(y.keys()).filter(|k| x.get(k) != y.get(k)).take(4).map(|k| format!("{k}: {:?} instead of {:?}", x.get(k), y.get(k))).collect();
        format!("after {what} the half-edges differ: {}", d.join(", "))
    });
    c.check(g.s.v.keys().eq(want.s.v.keys()) && g.vp == want.vp, "vertices", || {
        let d: Vec<String> = g.vp.keys().chain(want.vp.keys()).filter(|k| g.vp.get(k) != want.vp.get(k)).take(3).map(|k| format!("{k}: {:?} instead of {:?}", g.vp.get(k), want.vp.get(k))).collect();
        format!("after {what} the vertices differ: {}", d.join(", "))
    });
    c.check(g.s.f.keys().eq(want.s.f.keys()) && g.s.f.iter().all(|(f, x)| x.curved == want.s.f[f].curved), "faces", || {
        format!("after {what} there are the faces {:?} instead of {:?}", g.s.f, want.s.f)
    });
    c.check(g.curve == want.curve, "curves", || {
        let d: Vec<String> = want.curve.keys().filter(|k| g.curve.get(k) != want.curve.get(k)).take(3).map(|k| format!("{k}: {:?} instead of {:?}", g.curve.get(k), want.curve[k])).collect();
        format!("after {what} the curves differ: {}", d.join(", "))
    });
    c.state(g.s.hash());
}
fn payload(c: &mut Case, p: P2) -> VP {
    let mut v = VP::from_pos(Vec2::new(p[0], p[1]));
    if c.rng.chance(0.5) {
        v.set_normal(Vec2::new(c.rng.normal(), c.rng.normal()));
    }
    v
}

/// One drawing command to `to` (an existing vertex or a new one); returns a description.
fn command(c: &mut Case, b: &mut PB, want: &mut Want, to: Option<usize>, size: f64) {
    let r = &mut c.rng;
    let mut q = || Vec2::new(r.f(-1.0, 1.0) * size, r.f(-1.0, 1.0) * size);
    let (x, k1, k2, k3, k4, k5) = (q(), q(), q(), q(), q(), q());
    let k = c.rng.below(if to.is_some() { 5 } else { 9 });
    let used: Vec<usize> = want.s.e.keys().copied().collect();
    let lin: (Curve, Curve) = (CurvedEdgeType::Linear, CurvedEdgeType::Linear);
    let ep = |k: &Curve| {
        let mut e = EP::default();
        e.set_curve_type(*k);
        e
    };
    let (name, vp, curve): (&str, VP, (Curve, Curve));
    let mut v = to;
    if to.is_none() && k < 5 {
        // add an isolated vertex first
        let p = payload(c, [x.x, x.y]);
        let i = b.mesh().add_vertex(p);
        c.check(!want.vp.contains_key(&i), "id-reused", || format!("the new vertex {i} existed"));
        want.s.v.insert(i, NO);
        want.vp.insert(i, p);
        v = Some(i);
    }
    match (k, v) {
        (0 | 1, Some(v)) => {
            name = "line_to";
            curve = lin;
            vp = want.vp[&v];
            c.phase(name);
            b.line_to(v);
        }
        (2, Some(v)) => {
            name = "line_to_ex";
            let a: Curve = if c.rng.chance(0.5) { CurvedEdgeType::QuadraticBezier(k1) } else { CurvedEdgeType::Linear };
            curve = if c.rng.chance(0.5) { (a, CurvedEdgeType::Linear) } else { (CurvedEdgeType::Linear, a) };
            vp = want.vp[&v];
            c.phase(name);
            b.line_to_ex(v, ep(&curve.0), ep(&curve.1));
        }
        (3, Some(v)) => {
            name = "quad_to";
            curve = (CurvedEdgeType::QuadraticBezier(k2), lin.1);
            vp = want.vp[&v];
            c.phase(name);
            b.quad_to(k2, v);
        }
        (_, Some(v)) => {
            name = "cubic_to";
            curve = (CurvedEdgeType::CubicBezier(k3, k4), lin.1);
            vp = want.vp[&v];
            c.phase(name);
            b.cubic_to(k3, k4, v);
        }
        (5, None) => {
            name = "line";
            curve = lin;
            vp = VP::from_pos(x);
            c.phase(name);
            b.line::<2>(x);
        }
        (6, None) => {
            name = "line_ex";
            let a: Curve = if c.rng.chance(0.5) { CurvedEdgeType::CubicBezier(k1, k5) } else { CurvedEdgeType::Linear };
            curve = if c.rng.chance(0.5) { (a, CurvedEdgeType::Linear) } else { (CurvedEdgeType::Linear, a) };
            vp = payload(c, [x.x, x.y]);
            c.phase(name);
            b.line_ex::<2>(vp, ep(&curve.0), ep(&curve.1));
        }
        (7, None) => {
            name = "quad";
            curve = (CurvedEdgeType::QuadraticBezier(k2), lin.1);
            vp = VP::from_pos(x);
            c.phase(name);
            b.quad(k2, x);
        }
        _ => {
            name = "cubic";
            curve = (CurvedEdgeType::CubicBezier(k3, k4), lin.1);
            vp = VP::from_pos(x);
            c.phase(name);
            b.cubic(k3, k4, x);
        }
    }
    c.phase("judge");
    c.count(name);
    c.log(format!("{name} {to:?} at {x:?}"));
    let at = b.current_vertex();
    match v {
        Some(v) => {
            c.check(at == v, "current-vertex", || format!("the current vertex is {at} after {name} to {v}"));
        }
        None => {
            c.check(!want.vp.contains_key(&at) && b.mesh().has_vertex(at), "id-reused", || format!("{name} to a new vertex leads to {at}"));
            want.s.v.insert(at, NO);
            want.vp.insert(at, vp);
        }
    }
    let to = v.unwrap_or(at);
    match b.current_edges() {
        Some((e, t)) if e != t && !used.contains(&e) && !used.contains(&t) && b.mesh().edge_ids().any(|x| x == e) && b.mesh().edge_ids().any(|x| x == t) => {
            want.draw(to, e, t, curve);
            state(c, b, want, name);
            let m = b.mesh().clone();
            same(c, &m, want, name);
        }
        x => c.fail("current-edges", format!("the current edges after {name} are {x:?}")),
    }
}

fn base(c: &mut Case) -> MC {
    if c.rng.chance(0.3) {
        MC::default()
    } else {
        curved_scene(c, 0.2)
    }
}

fn fresh(c: &mut Case) {
    c.phase("setup");
    let mut m = base(c);
    let size = posc(&m).values().flatten().fold(0.0f64, |a, b| a.max(b.abs())).max(1e-3);
    let Some(mut want) = Want::of(&m) else {
        return c.fail("setup", "unreadable".into());
    };
    let before = want.s.v.len();
    let p = Vec2::new(c.rng.f(-1.0, 1.0) * size, c.rng.f(-1.0, 1.0) * size);
    let vp = payload(c, [p.x, p.y]);
    let how = c.rng.below(4);
    c.phase("start");
    c.log(format!("start {how} at {p:?} in a mesh with {before} vertices"));
    let iso = m.vertices().find(|v| v.edge(&m).is_none()).map(|v| v.id());
    let mut b = match (how, iso) {
        (0, _) => {
            let mut b = PB::new(&mut m);
            c.check(!b.is_closed() && !b.has_face() && b.start_edges().is_none() && b.current_edges().is_none(), "new", || "the state of a new path".into());
            b.move_to_new(p);
            want.vp.insert(b.start_vertex(), VP::from_pos(p));
            c.count("start:new");
            b
        }
        (1, _) => {
            let b = PB::start(&mut m, p);
            want.vp.insert(b.start_vertex(), VP::from_pos(p));
            c.count("start:start");
            b
        }
        (3, Some(v)) => {
            let b = PB::start_at(&mut m, v);
            c.check(b.start_vertex() == v, "start-vertex", || format!("the start vertex is {} instead of {v}", b.start_vertex()));
            c.count("start:isolated");
            b
        }
        _ => {
            let b = PB::start_ex(&mut m, vp);
            want.vp.insert(b.start_vertex(), vp);
            c.count("start:start_ex");
            b
        }
    };
    c.phase("judge");
    want.start = b.start_vertex();
    want.current = want.start;
    want.s.v.entry(want.start).or_insert(NO);
    state(c, &mut b, &want, "start");
    {
        let m = b.mesh().clone();
        same(c, &m, &want, "start");
    }
    let n = if c.rng.chance(0.1) { 0 } else { let k = c.rng.rare(12, 160); c.rng.int(1, k) };
    let mut verts = vec![want.start];
    for _ in 0..n {
        command(c, &mut b, &mut want, None, size);
        if c.failed() {
            return;
        }
        verts.push(want.current);
    }
    let how = c.rng.below(6);
    let ends = b.mesh().face_ids().count();
    match (n, how) {
        (0, 0 | 1 | 2 | 3) => {
            c.phase("close empty");
            let f = b.close(Default::default());
            want.closed = true;
            want.face = true;
            c.check(f == <usize as IndexType>::max(), "empty-face", || format!("closing a path without edges gives the face {f}"));
            c.count("end:empty");
        }
        (0, _) => {
            let p = *want.vp[&want.start].pos();
            c.phase("add_vertex_autoclose");
            let v = b.add_vertex_autoclose(p);
            c.phase("judge");
            c.check(v == want.start, "autoclose", || format!("add_vertex_autoclose at the start of an empty path gives {v} instead of {}", want.start));
            c.count("end:open");
        }
        (_, 0) => c.count("end:open"),
        (1, _) => c.count("end:open"),
        (_, 1 | 2) => {
            c.phase("close");
            let used: Vec<usize> = want.s.e.keys().copied().collect();
            let f = b.close(Default::default());
            c.phase("judge");
            match b.current_edges() {
                Some((e, t)) if !used.contains(&e) && !used.contains(&t) && b.mesh().edge_ids().any(|x| x == e) && b.mesh().edge_ids().any(|x| x == t) => want.draw(want.start, e, t, (CurvedEdgeType::Linear, CurvedEdgeType::Linear)),
                x => return c.fail("close-edge", format!("closing an open path ends with the edges {x:?}")),
            }
            finish(c, &mut want, f, &verts);
            c.count("end:closed-by-line");
        }
        _ => {
            if c.rng.chance(0.5) {
                // through add_vertex_autoclose
                let p = *want.vp[&want.start].pos();
                let k = want.s.v.len();
                c.phase("add_vertex_autoclose");
                let other = b.add_vertex_autoclose(Vec2::new(2.0 * size, size));
                let v = b.add_vertex_autoclose(p);
                c.phase("judge");
                c.check(v == want.start, "autoclose", || format!("add_vertex_autoclose at the start gives {v}"));
                c.check(b.mesh().num_vertices() == k + 1 && !want.vp.contains_key(&other), "autoclose", || "add_vertex_autoclose elsewhere doesn't add one vertex".into());
                want.s.v.insert(other, NO);
                want.vp.insert(other, VP::from_pos(Vec2::new(2.0 * size, size)));
                c.count("autoclose");
            }
            let start = want.start;
            command(c, &mut b, &mut want, Some(start), size);
            if c.failed() {
                return;
            }
            c.count("end:returned");
            if how < 5 {
                c.phase("close");
                let f = b.close(Default::default());
                c.phase("judge");
                finish(c, &mut want, f, &verts);
                c.count("end:closed");
            } else {
                c.check(b.mesh().face_ids().count() == ends, "faces", || "returning to the start creates a face".into());
            }
        }
    }
    state(c, &mut b, &want, "the end");
    drop(b);
    same(c, &m, &want, "the end");
    c.fingerprint(vmon::mix(want.s.hash(), n as u64));
    if n > 0 {
        c.nontrivial();
    }
}
fn finish(c: &mut Case, want: &mut Want, f: usize, verts: &[usize]) {
    c.check(!want.s.f.contains_key(&f) && f != NO, "face-id", || format!("closing returns the face {f}, which isn't new"));
    want.fill(f);
    if !verts.is_empty() {
        let mut r = verts.to_vec();
        r.reverse();
        let g = want.s.face_verts(f);
        c.check(canon(&g) == canon(&r), "outline", || format!("the outline is {g:?} instead of {r:?}"));
    }
}

/// Paths that begin at the boundary of an existing mesh.
fn attached(c: &mut Case) {
    c.phase("setup");
    let mut m = curved_scene(c, 0.2);
    let size = posc(&m).values().flatten().fold(0.0f64, |a, b| a.max(b.abs())).max(1e-3);
    let Some(mut want) = Want::of(&m) else {
        return c.fail("setup", "unreadable".into());
    };
    let gaps: Vec<(usize, usize, usize)> = want.s.v.iter().filter(|(_, e)| **e != NO).filter_map(|(v, _)| want.gap(*v).map(|(i, o)| (*v, i, o))).collect();
    if gaps.is_empty() {
        c.count("nothing to start at");
        return;
    }
    let (v, i, o) = *c.rng.pick(&gaps);
    // the boundary from v on
    let mut cycle = vec![];
    let mut e = o;
    loop {
        cycle.push(e);
        e = want.s.e[&e].next;
        if e == o {
            break;
        }
    }
    want.start = v;
    want.current = v;
    want.first = Some(i);
    c.phase("start");
    let inside = want.s.e[&want.s.v[&v]].face != NO;
    let mut b = if c.rng.chance(0.5) {
        c.count("start:edge");
        PB::start_at_edge(&mut m, i)
    } else {
        c.count("start:vertex");
        c.count(if inside { "start:vertex-inside" } else { "start:vertex-boundary" });
        PB::start_at(&mut m, v)
    };
    c.phase("judge");
    c.log(format!("start at vertex {v} after edge {i}"));
    state(c, &mut b, &want, "start");
    let simple: std::collections::BTreeSet<usize> = cycle.iter().map(|e| want.s.e[e].origin).collect();
    if c.rng.chance(0.15) && cycle.len() > 2 && simple.len() == cycle.len() {
        // nothing drawn: the hole is filled
        c.phase("close");
        let f = b.close(Default::default());
        c.phase("judge");
        finish(c, &mut want, f, &[]);
        c.count("end:filled");
    } else {
        // other vertices with one gap on the same boundary; after joining, there are two
        let ends: Vec<usize> = cycle.iter().map(|e| want.s.e[e].origin).filter(|w| *w != v && want.gap(*w).is_some()).collect();
        let near = |w: usize| want.s.wheel(v).iter().any(|e| want.s.target(*e) == w);
        let w = if ends.is_empty() || c.rng.chance(0.2) { None } else { Some(*c.rng.pick(&ends)) };
        let mut n = c.rng.below(6);
        if w.is_none() || w.is_some_and(near) {
            n = n.max(1);
        }
        let mut verts = vec![v];
        for _ in 0..n {
            command(c, &mut b, &mut want, None, size);
            if c.failed() {
                return;
            }
            verts.push(want.current);
        }
        if let Some(w) = w {
            command(c, &mut b, &mut want, Some(w), size);
            if c.failed() {
                return;
            }
            if c.rng.chance(0.8) {
                c.phase("close");
                let f = b.close(Default::default());
                c.phase("judge");
                finish(c, &mut want, f, &[]);
                // the drawn vertices, then along the boundary back to the start
                let mut r = verts.clone();
                let k = cycle.iter().position(|e| want.s.e[e].origin == w).unwrap();
                r.extend(cycle[k..].iter().map(|e| want.s.e[e].origin));
                let g = want.s.face_verts(f);
                c.check(canon(&g) == canon(&r), "outline", || format!("the outline is {g:?} instead of {r:?}"));
                c.count("end:joined-closed");
            } else {
                c.count("end:joined");
            }
        } else {
            c.count("end:open");
        }
    }
    state(c, &mut b, &want, "the end");
    drop(b);
    same(c, &m, &want, "the end");
    c.fingerprint(vmon::mix(want.s.hash(), v as u64));
    c.nontrivial();
}

pub fn props() -> Vec<Property> {
    vec![Property {
        id: "C28",
        workloads: vec![w("fresh", 60000, 480000, fresh), w("attached", 60000, 480000, attached)],
        floors: vec![
            ("line", 1000), ("line_ex", 1000), ("quad", 1000), ("cubic", 1000), ("line_to", 1000), ("line_to_ex", 1000), ("quad_to", 1000), ("cubic_to", 1000), ("start:new", 500), ("start:start", 500),
            ("start:start_ex", 500), ("start:isolated", 200), ("start:edge", 500), ("start:vertex-inside", 100), ("start:vertex-boundary", 100), ("end:open", 500), ("end:empty", 100), ("end:closed-by-line", 500),
            ("end:closed", 500), ("end:returned", 500), ("end:filled", 200), ("end:joined", 200), ("end:joined-closed", 500), ("autoclose", 200),
        ],
        rule: "A case is a mesh and a random sequence of path commands; after every command all links, payloads, curves and the reported state are compared with a model of the half-edge structure. Non-trivial: something was drawn or filled.",
        assumptions: vec!["paths that leave an existing boundary don't return to their first vertex, and join another boundary vertex only at their end (the library rejects vertices with several gaps)"],
    }]
}
