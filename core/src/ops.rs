//! C12 extrusion, C13 lofting, C14 hole filling: the mesh after the operation is compared with the
//! set of faces that the operation has to create, and with everything it must not touch.

use crate::machine::*;
use crate::snap::*;
use crate::types::*;
use procedural_modelling::extensions::nalgebra::*;
use procedural_modelling::prelude::*;
use std::collections::{BTreeMap, BTreeSet};
use vmon::{w, Case, Property};

/// Rotates a cycle so that it starts with its smallest element (for cycles without repetitions);
/// for others the smallest rotation.
pub fn canon(v: &[usize]) -> Vec<usize> {
    let n = v.len();
    let mut best: Option<Vec<usize>> = None;
    let min = v.iter().min().copied().unwrap_or(0);
    for i in 0..n {
        if v[i] == min {
            let r: Vec<usize> = v[i..].iter().chain(&v[..i]).copied().collect();
            if best.as_ref().is_none_or(|b| r < *b) {
                best = Some(r);
            }
        }
    }
    best.unwrap_or_default()
}

pub fn verts(s: &Snap, cyc: &[usize]) -> Vec<usize> {
    cyc.iter().map(|e| s.e[e].origin).collect()
}

pub fn simple(v: &[usize]) -> bool {
    v.iter().collect::<BTreeSet<_>>().len() == v.len()
}

pub fn boundary_sets(s: &Snap) -> Vec<Vec<usize>> {
    let mut r: Vec<Vec<usize>> = s.boundary_cycles().iter().map(|c| canon(&verts(s, c))).collect();
    r.sort();
    r
}

/// What an operation has to do.
#[derive(Default)]
pub struct Exp {
    /// half-edges whose next/prev/face may change: the selected boundary cycles
    pub touched: BTreeSet<usize>,
    /// old boundary cycles (canonical) that must be gone
    pub gone: Vec<Vec<usize>>,
    /// new boundary cycles
    pub boundary: Vec<Vec<usize>>,
    /// new faces
    pub faces: Vec<Vec<usize>>,
    /// face that is removed by the operation
    pub removed: Option<usize>,
}

/// Compares the mesh after an operation with the expectation. `vs` are the new vertices.
pub fn judge<T: TaggedG>(c: &mut Case, mc: &mut Machine<T>, op: &str, ctx: &str, vs: &[usize], exp: &Exp) -> bool {
    let a = mc.a.clone();
    let real = match read::<T>(&mc.m) {
        Ok(r) => r,
        Err((sig, msg)) => {
            c.fail(&format!("wf:{sig}:{op}"), format!("after {ctx}: {msg}"));
            return false;
        }
    };
    let s = &real.s;
    match s.wellformed() {
        Ok(_) => c.check(true, "", String::new),
        Err((sig, msg)) => {
            c.fail(&format!("wf:{sig}:{op}"), format!("after {ctx}: {msg}"));
            return false;
        }
    }
    let fail = |c: &mut Case, sig: &str, msg: String| c.fail(&format!("{sig}:{op}"), format!("after {ctx}: {msg}"));
    // vertices
    let mut want: BTreeSet<usize> = a.s.v.keys().copied().collect();
    let old = want.len();
    want.extend(vs);
    let got: BTreeSet<usize> = s.v.keys().copied().collect();
    if want.len() != old + vs.len() || want != got {
        fail(c, "vertices", format!("{} old vertices, new ones {vs:?}, but the mesh has {got:?}", old));
    }
    for (v, t) in &a.vp {
        if real.vp.get(v) != Some(t) {
            fail(c, "vertex-payload", format!("vertex {v} had payload {t}, now {:?}", real.vp.get(v)));
        }
    }
    // old half-edges
    for (e, h) in &a.s.e {
        let Some(n) = s.e.get(e) else {
            fail(c, "edges", format!("half-edge {e} vanished"));
            continue;
        };
        if exp.touched.contains(e) {
            if n.origin != h.origin || n.twin != h.twin {
                fail(c, "edges", format!("half-edge {e} changed from {h:?} to {n:?}"));
            }
        } else if n != h {
            fail(c, "locality", format!("half-edge {e} isn't part of the selection but changed from {h:?} to {n:?}"));
        }
        if real.ep[e] != a.ep[e] {
            fail(c, "edge-payload", format!("half-edge {e} had payload {}, now {}", a.ep[e], real.ep[e]));
        }
    }
    for (e, p) in &real.ep {
        if !a.ep.contains_key(e) && *p != 0 {
            fail(c, "edge-payload", format!("new half-edge {e} has payload {p} instead of the default"));
        }
    }
    // faces
    for (f, fa) in &a.s.f {
        if exp.removed == Some(*f) {
            continue;
        }
        match s.f.get(f) {
            None => fail(c, "locality", format!("face {f} vanished")),
            Some(n) => {
                if canon(&s.face_verts(*f)) != canon(&a.s.face_verts(*f)) || n.curved != fa.curved || real.fp[f] != a.fp[f] {
                    fail(c, "locality", format!("face {f} changed"));
                }
            }
        }
    }
    let keep: BTreeSet<usize> = a.s.f.keys().copied().filter(|f| exp.removed != Some(*f)).collect();
    let mut new: Vec<Vec<usize>> = vec![];
    for f in s.f.keys().filter(|f| !keep.contains(f)) {
        new.push(canon(&s.face_verts(*f)));
        if s.f[f].curved || real.fp[f] != 0 {
            fail(c, "face-payload", format!("new face {f} is curved or has payload {}", real.fp[f]));
        }
    }
    new.sort();
    let mut want: Vec<Vec<usize>> = exp.faces.iter().map(|f| canon(f)).collect();
    want.sort();
    if new != want {
        let (a, b): (BTreeSet<_>, BTreeSet<_>) = (new.iter().collect(), want.iter().collect());
        fail(
            c,
            "faces",
            format!("expected {} new faces, found {}; missing {:?}, unexpected {:?}", want.len(), new.len(), b.difference(&a).take(3).collect::<Vec<_>>(), a.difference(&b).take(3).collect::<Vec<_>>()),
        );
    } else {
        c.check(true, "", String::new);
    }
    // boundaries
    let mut want = boundary_sets(&a.s);
    for g in &exp.gone {
        let g = canon(g);
        if let Some(i) = want.iter().position(|x| *x == g) {
            want.remove(i);
        }
    }
    want.extend(exp.boundary.iter().map(|b| canon(b)));
    want.sort();
    let got = boundary_sets(s);
    if got != want {
        fail(c, "boundary", format!("expected the boundary cycles {want:?} but found {got:?}"));
    } else {
        c.check(true, "", String::new);
    }
    c.state(s.hash());
    c.count(&format!("op:{op}"));
    mc.a = real;
    true
}

/// All boundary cycles that visit every vertex at most once and have at least three edges.
fn simple_cycles(s: &Snap) -> Vec<Vec<usize>> {
    s.boundary_cycles().into_iter().filter(|c| c.len() >= 3 && simple(&verts(s, c))).collect()
}

/// Rotates so that the cycle starts at a random edge.
fn spin(c: &mut Case, cy: &[usize]) -> Vec<usize> {
    let k = c.rng.below(cy.len());
    cy[k..].iter().chain(&cy[..k]).copied().collect()
}

fn base<T: TaggedG>(c: &mut Case) -> Machine<T> {
    let limit = size(c, &[5, 8, 14, 24]);
    let mut mc = Machine::<T>::new(limit, true);
    let steps = c.rng.int(1, 40);
    mc.history(c, steps, ALL);
    if simple_cycles(&mc.a.s).is_empty() || c.rng.chance(0.2) {
        // a long loop
        let n = c.rng.int(3, 16);
        let pays: Vec<T::VP> = (0..n).map(|i| T::VP::mk(900_000 + mc.a.s.v.len() as u64 * 1000 + i as u64)).collect();
        mc.m.insert_loop(pays);
        match read::<T>(&mc.m) {
            Ok(r) => mc.a = r,
            Err((sig, msg)) => c.fail(&format!("wf:{sig}:loop"), msg),
        }
    }
    mc
}

/// Finds the new vertices by their tags.
fn by_tag<T: TaggedG>(mc: &Machine<T>, tags: &[u64]) -> Option<Vec<usize>> {
    let map: BTreeMap<u64, usize> = MeshBasics::vertices(&mc.m).map(|v| (v.payload().tag(), ix(v.id()))).collect();
    tags.iter().map(|t| map.get(t).copied()).collect()
}

fn loft_once<T: TaggedG>(c: &mut Case, mc: &mut Machine<T>, round: u64) -> bool {
    let s = mc.a.s.clone();
    let cyc = simple_cycles(&s);
    if cyc.is_empty() {
        return false;
    }
    let cy = c.rng.pick(&cyc).clone();
    let cy = spin(c, &cy);
    let l = cy.len();
    let start = cy[0];
    let e = T::E::new(start);
    // b: backwards from the target of start; a: forwards from its origin
    let a: Vec<usize> = verts(&s, &cy);
    let b: Vec<usize> = (0..l).map(|k| a[(1 + l - k) % l]).collect();
    let kind = c.rng.below(7);
    let shift = c.rng.chance(0.5);
    let (mut n, mut m) = (2, 2);
    let mut closed = false;
    let count = match kind {
        0 | 1 => c.rng.int(0, l),
        2 | 3 => l,
        _ => {
            if kind != 6 {
                n = *c.rng.pick(&[2usize, 2, 3, 4, 5]);
                m = *c.rng.pick(&[2usize, 2, 3, 4]);
            }
            closed = l % (m - 1) == 0 && c.rng.chance(0.5);
            if closed {
                l / (m - 1) * (n - 1)
            } else {
                let kmax = (l - 1) / (m - 1);
                if kmax == 0 {
                    return false;
                }
                // with one vertex more the row could be closed
                let k = c.rng.int(0, kmax);
                let cnt = if k == 0 { c.rng.below(2) } else { 1 + k * (n - 1) };
                if l % (m - 1) == 0 && n == 2 && cnt == l / (m - 1) {
                    closed = true;
                }
                cnt
            }
        }
    };
    if closed && l / (m - 1) * (n - 1) < 3 {
        // the new boundary would be degenerate
        return false;
    }
    let tags: Vec<u64> = (0..count).map(|i| 500_000 + round * 1000 + i as u64).collect();
    let it: Vec<T::VP> = tags.iter().map(|t| T::VP::mk(*t)).collect();
    let ctx;
    let op;
    let ret;
    c.phase("loft");
    match kind {
        0 => {
            op = "loft_tri_back";
            ctx = format!("loft_tri_back({start}, {shift}, {count} vertices) on a boundary of {l}");
            c.log(&ctx);
            ret = mc.m.loft_tri_back(e, shift, it);
        }
        1 => {
            op = "loft_tri";
            ctx = format!("loft_tri({start}, {shift}, {count} vertices) on a boundary of {l}");
            c.log(&ctx);
            ret = mc.m.loft_tri(e, shift, it);
        }
        2 => {
            op = "loft_tri_back_closed";
            ctx = format!("loft_tri_back_closed({start}, {count} vertices)");
            c.log(&ctx);
            ret = mc.m.loft_tri_back_closed(e, it);
        }
        3 => {
            op = "loft_tri_closed";
            ctx = format!("loft_tri_closed({start}, {count} vertices)");
            c.log(&ctx);
            ret = mc.m.loft_tri_closed(e, it);
        }
        4 | 5 => {
            op = "loft_polygon_back";
            ctx = format!("loft_polygon_back({start}, {n}, {m}, {count} vertices) on a boundary of {l}, closed={closed}");
            c.log(&ctx);
            ret = mc.m.loft_polygon_back(e, n, m, it);
        }
        _ => {
            op = "loft_polygon";
            ctx = format!("loft_polygon({start}, 2, 2, {count} vertices) on a boundary of {l}, closed={closed}");
            c.log(&ctx);
            ret = mc.m.loft_polygon(e, 2, 2, it);
        }
    }
    let ret = ix(ret);
    let Some(w) = by_tag(mc, &tags) else {
        c.fail(&format!("vertices:{op}"), format!("after {ctx}: a vertex is missing"));
        return false;
    };
    // the faces that have to be there
    let mut x = Exp { touched: cy.iter().copied().collect(), gone: vec![a.clone()], ..Default::default() };
    let k = count;
    // expected returned edge: (origin, target, must be a boundary edge)
    let mut r: Option<(usize, usize, bool)> = None;
    match kind {
        0 | 2 => {
            let full = kind == 2;
            for i in 0..k {
                if shift && kind == 0 {
                    if i > 0 {
                        x.faces.push(vec![b[i - 1], w[i - 1], w[i]]);
                        x.faces.push(vec![b[i], b[i - 1], w[i]]);
                    }
                } else {
                    if i > 0 {
                        x.faces.push(vec![b[i], w[i - 1], w[i]]);
                    }
                    if i + 1 < k || full {
                        x.faces.push(vec![b[(i + 1) % l], b[i], w[i]]);
                    }
                }
            }
            if full {
                x.faces.push(vec![b[0], w[k - 1], w[0]]);
                x.boundary.push(w.iter().rev().copied().collect());
            } else {
                // boundary: forward along the rest of the cycle to the last used vertex, along the new row and back to b0
                let last = if shift { k.saturating_sub(1) } else { k.saturating_sub(1) };
                x.boundary.push(strip(&b, &w, last, k));
            }
            if k > 0 {
                r = Some((w[0], b[0], false));
            }
        }
        1 | 3 => {
            let full = kind == 3;
            for i in 0..k {
                if shift && kind == 1 {
                    if i > 0 {
                        x.faces.push(vec![a[i - 1], w[i], w[i - 1]]);
                        x.faces.push(vec![a[i - 1], a[i], w[i]]);
                    }
                } else {
                    if i > 0 {
                        x.faces.push(vec![a[i], w[i], w[i - 1]]);
                    }
                    if i + 1 < k || full {
                        x.faces.push(vec![a[i], a[(i + 1) % l], w[i]]);
                    }
                }
            }
            if full {
                x.faces.push(vec![a[0], w[0], w[k - 1]]);
                x.boundary.push(w.clone());
                r = Some((w[0], w[1], true));
            } else {
                let mut bd = strip(&a, &w, k.saturating_sub(1), k);
                bd.reverse();
                x.boundary.push(bd);
                if k > 0 {
                    r = Some((w[0], a[0], false));
                }
            }
        }
        4 | 5 => {
            let faces = if closed { l / (m - 1) } else if k == 0 { 0 } else { (k - 1) / (n - 1) };
            for i in 0..faces {
                let mut f: Vec<usize> = (0..m).map(|j| b[((i + 1) * (m - 1) - j) % l]).collect();
                f.extend((0..n).map(|j| w[(i * (n - 1) + j) % k]));
                x.faces.push(f);
            }
            if closed {
                x.boundary.push(w.iter().rev().copied().collect());
            } else {
                x.boundary.push(strip(&b, &w, faces * (m - 1), k));
            }
            if faces > 0 {
                r = Some((w[1], w[0], true));
            }
        }
        _ => {
            let faces = if closed { l } else { k.saturating_sub(1) };
            for i in 0..faces {
                x.faces.push(vec![a[i], a[(i + 1) % l], w[(i + 1) % k], w[i]]);
            }
            if closed {
                x.boundary.push(w.clone());
            } else {
                let mut bd = strip(&a, &w, faces, k);
                bd.reverse();
                x.boundary.push(bd);
            }
            if faces > 0 {
                r = Some((w[0], w[1], true));
            }
        }
    }
    if !judge(c, mc, op, &ctx, &w, &x) {
        return false;
    }
    c.count(if closed || kind == 2 || kind == 3 { "closed" } else { "open" });
    c.max("longest-row", k as u64);
    let s = &mc.a.s;
    match r {
        None => c.check(ret == start, &format!("returned:{op}"), || format!("after {ctx}: returned {ret} instead of the start {start}")),
        Some((o, t, bd)) => {
            let ok = s.e.contains_key(&ret) && s.e[&ret].origin == o && s.target(ret) == t && (!bd || s.e[&ret].face == NO);
            c.check(ok, &format!("returned:{op}"), || format!("after {ctx}: returned {ret} = {:?} instead of the edge from {o} to {t} (boundary={bd})", s.e.get(&ret)));
        }
    }
    true
}

/// The boundary after attaching the row w to the vertices b_0..b_last (walking backwards along the
/// boundary): b_0, then along the row, b_last, and on to b_0.
fn strip(b: &[usize], w: &[usize], last: usize, k: usize) -> Vec<usize> {
    // in the direction of the b's: b_last, b_last+1, ..., b_{l-1}, b_0, w_0, ..., w_{k-1}; the
    // boundary runs the other way
    let l = b.len();
    if k == 0 {
        return b.iter().rev().copied().collect();
    }
    let mut r: Vec<usize> = vec![];
    if k == 1 && last == 0 {
        // a single dangling vertex: b_0 is passed twice
        r.extend(&b[..]);
        r.push(b[0]);
        r.push(w[0]);
        r.reverse();
        return r;
    }
    for i in last..=l {
        r.push(b[i % l]);
    }
    r.extend(&w[..k]);
    r.reverse();
    r
}

fn c13_t<T: TaggedG>(c: &mut Case) {
    let mut mc = base::<T>(c);
    let rounds = c.rng.int(1, 3);
    for r in 0..rounds {
        if loft_once(c, &mut mc, r as u64) {
            c.nontrivial();
        }
        if c.rng.chance(0.3) {
            let k = c.rng.below(6);
            mc.history(c, k, ALL);
        }
    }
}
fn c13(c: &mut Case) {
    match c.rng.below(3) {
        0 => c13_t::<TT<usize, usize, usize>>(c),
        1 => c13_t::<TT<u16, u16, u16>>(c),
        _ => c13_t::<GT<u32, u32, u16>>(c),
    }
}

fn fill_once<T: TaggedG>(c: &mut Case, mc: &mut Machine<T>, round: u64) -> bool {
    let s = mc.a.s.clone();
    let e0 = s.wellformed().map(|i| i.euler).unwrap_or(0);
    let apex = c.rng.chance(0.6);
    let cyc: Vec<Vec<usize>> = if apex { simple_cycles(&s) } else { s.boundary_cycles().into_iter().filter(|c| c.len() >= 3).collect() };
    if cyc.is_empty() {
        return false;
    }
    if cyc.len() > 1 {
        c.count("several-boundaries");
    }
    let cy = c.rng.pick(&cyc).clone();
    let cy = spin(c, &cy);
    let a = verts(&s, &cy);
    let l = cy.len();
    c.max("longest-boundary", l as u64);
    let mut x = Exp { touched: cy.iter().copied().collect(), gone: vec![a.clone()], ..Default::default() };
    c.phase("fill");
    let op;
    if apex {
        op = "fill_hole_apex";
        let tag = 700_000 + round;
        let ctx = format!("fill_hole_apex({}) on a boundary of {l}", cy[0]);
        c.log(&ctx);
        let v = ix(mc.m.fill_hole_apex(T::E::new(cy[0]), T::VP::mk(tag)));
        for i in 0..l {
            x.faces.push(vec![a[i], a[(i + 1) % l], v]);
        }
        if !judge(c, mc, op, &ctx, &[v], &x) {
            return false;
        }
        c.check(mc.a.vp.get(&v) == Some(&tag), "apex-payload", || format!("after {ctx}: vertex {v} doesn't have the payload of the apex"));
    } else {
        op = "close_hole";
        let ctx = format!("close_hole_default({}) on a boundary of {l}", cy[0]);
        c.log(&ctx);
        let f = ix(mc.m.close_hole_default(T::E::new(cy[0])));
        x.faces.push(a.clone());
        if !judge(c, mc, op, &ctx, &[], &x) {
            return false;
        }
        c.check(mc.a.s.f.contains_key(&f) && canon(&mc.a.s.face_verts(f)) == canon(&a), "returned:close_hole", || format!("after {ctx}: face {f} isn't the new face"));
    }
    let e1 = mc.a.s.wellformed().map(|i| i.euler).unwrap_or(-99);
    c.check(e1 == e0 + 1, &format!("euler:{op}"), || format!("the Euler characteristic went from {e0} to {e1}"));
    // all edges of the boundary are interior now (unless both sides were open)
    for e in &cy {
        let h = mc.a.s.e[e];
        c.check(h.face != NO, &format!("still-open:{op}"), || format!("half-edge {e} is still a boundary"));
    }
    true
}

fn c14_t<T: TaggedG>(c: &mut Case) {
    let mut mc = base::<T>(c);
    let rounds = c.rng.int(1, 4);
    for r in 0..rounds {
        if fill_once(c, &mut mc, r as u64) {
            c.nontrivial();
        }
        if c.rng.chance(0.3) {
            let k = c.rng.below(6);
            mc.history(c, k, ALL);
        }
    }
}
fn c14(c: &mut Case) {
    match c.rng.below(3) {
        0 => c14_t::<TT<usize, usize, usize>>(c),
        1 => c14_t::<TT<u16, u16, u16>>(c),
        _ => c14_t::<GT<u32, u32, u16>>(c),
    }
}

/// An affine map of space.
#[derive(Clone, Copy, Debug)]
pub struct Map {
    pub m: [[f64; 3]; 3],
    pub t: [f64; 3],
}
impl Map {
    pub fn random(c: &mut Case) -> Map {
        let id = [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]];
        let t = [c.rng.f(-5.0, 5.0), c.rng.f(-5.0, 5.0), c.rng.f(-5.0, 5.0)];
        match c.rng.below(4) {
            0 => Map { m: id, t },
            1 => {
                let s = c.rng.f(0.2, 3.0);
                Map { m: [[s, 0.0, 0.0], [0.0, s, 0.0], [0.0, 0.0, s]], t }
            }
            2 => {
                let (s, k) = c.rng.f(-3.0, 3.0).sin_cos();
                Map { m: [[k, -s, 0.0], [s, k, 0.0], [0.0, 0.0, 1.0]], t }
            }
            _ => {
                let mut m = id;
                for r in m.iter_mut() {
                    for x in r.iter_mut() {
                        *x += c.rng.f(-0.6, 0.6);
                    }
                }
                Map { m, t }
            }
        }
    }
    pub fn apply(&self, p: [f64; 3]) -> [f64; 3] {
        let mut r = self.t;
        for i in 0..3 {
            for j in 0..3 {
                r[i] += self.m[i][j] * p[j];
            }
        }
        r
    }
    pub fn lib(&self) -> NdAffine<f64, 3> {
        let m = &self.m;
        NdAffine::new(
            nalgebra::SMatrix::<f64, 3, 3>::new(m[0][0], m[0][1], m[0][2], m[1][0], m[1][1], m[1][2], m[2][0], m[2][1], m[2][2]),
            Vec3::new(self.t[0], self.t[1], self.t[2]),
        )
    }
}

type G<E, V, F> = HalfEdgeMeshImpl<GT<E, V, F>>;

fn positions<E: IndexType, V: IndexType, F: IndexType>(m: &G<E, V, F>) -> BTreeMap<usize, [f64; 3]> {
    MeshBasics::vertices(m).map(|v| (ix(v.id()), { let p = v.payload().pos(); [p.x, p.y, p.z] })).collect()
}

fn dist(a: [f64; 3], b: [f64; 3]) -> f64 {
    ((a[0] - b[0]).powi(2) + (a[1] - b[1]).powi(2) + (a[2] - b[2]).powi(2)).sqrt()
}

/// Matches the new vertices with the expected positions.
fn match_pos(c: &mut Case, op: &str, ctx: &str, new: &BTreeMap<usize, [f64; 3]>, want: &[[f64; 3]]) -> Option<Vec<usize>> {
    if new.len() != want.len() {
        c.fail(&format!("vertices:{op}"), format!("after {ctx}: {} new vertices instead of {}", new.len(), want.len()));
        return None;
    }
    let mut used = BTreeSet::new();
    let mut r = vec![];
    for p in want {
        let best = new.iter().filter(|(i, _)| !used.contains(*i)).min_by(|a, b| dist(*a.1, *p).total_cmp(&dist(*b.1, *p)));
        let (i, q) = best?;
        let tol = 1e-9;
        if dist(*q, *p) > tol {
            c.fail(&format!("position:{op}"), format!("after {ctx}: no new vertex is at {p:?}; the nearest one is {i} at {q:?}"));
            return None;
        }
        used.insert(*i);
        r.push(*i);
    }
    c.check(true, "", String::new);
    Some(r)
}

fn extrude_once<E: IndexType, V: IndexType, F: IndexType>(c: &mut Case, mc: &mut Machine<GT<E, V, F>>) -> bool {
    let s = mc.a.s.clone();
    let e0 = s.wellformed().map(|i| i.euler).unwrap_or(0);
    let map = Map::random(c);
    let tr = map.lib();
    let before = positions(&mc.m);
    let kind = c.rng.below(6);
    c.phase("extrude");
    let mut x = Exp::default();
    let op;
    let ctx;
    let ret;
    // cycles along which it is extruded
    let mut cycles: Vec<Vec<usize>> = vec![];
    match kind {
        0 | 1 | 2 => {
            let cyc = simple_cycles(&s);
            if cyc.is_empty() {
                return false;
            }
            let cy = c.rng.pick(&cyc).clone();
            let cy = spin(c, &cy);
            op = ["extrude", "extrude_tri", "extrude_tri2"][kind];
            ctx = format!("{op}({}) with {map:?}", cy[0]);
            c.log(&ctx);
            let e = E::new(cy[0]);
            ret = Some(match kind {
                0 => mc.m.extrude(e, tr),
                1 => mc.m.extrude_tri(e, tr),
                _ => mc.m.extrude_tri2(e, tr),
            });
            cycles.push(cy);
        }
        3 | 4 => {
            let cand: Vec<usize> = s.f.keys().copied().filter(|f| simple(&s.face_verts(*f))).collect();
            if cand.is_empty() {
                return false;
            }
            let f = *c.rng.pick(&cand);
            let cy = s.cycle(s.f[&f].edge);
            op = ["extrude_face", "extrude_tri_face"][kind - 3];
            ctx = format!("{op}({f}) with {map:?}");
            c.log(&ctx);
            x.removed = Some(f);
            ret = Some(if kind == 3 { mc.m.extrude_face(F::new(f), tr) } else { mc.m.extrude_tri_face(F::new(f), tr) });
            cycles.push(cy);
        }
        _ => {
            // with wire edges, it would depend on the order what counts as a boundary of a face
            if s.e.values().any(|h| h.face == NO && s.e[&h.twin].face == NO) {
                return false;
            }
            for cy in s.boundary_cycles() {
                let touches = cy.iter().any(|e| s.e[&s.e[e].twin].face != NO);
                if touches {
                    if cy.len() < 3 || !simple(&verts(&s, &cy)) {
                        return false;
                    }
                    cycles.push(cy);
                }
            }
            if cycles.is_empty() {
                return false;
            }
            op = "extrude_boundary";
            ctx = format!("extrude_boundary with {map:?}: {} boundaries", cycles.len());
            c.log(&ctx);
            mc.m.extrude_boundary(tr);
            ret = None;
            if cycles.len() > 1 {
                c.count("extrude-several-boundaries");
            }
        }
    }
    let after = positions(&mc.m);
    let new: BTreeMap<usize, [f64; 3]> = after.iter().filter(|(k, _)| !before.contains_key(k)).map(|(k, v)| (*k, *v)).collect();
    for (v, p) in &before {
        if after.get(v) != Some(p) {
            c.fail(&format!("moved:{op}"), format!("after {ctx}: vertex {v} moved from {p:?} to {:?}", after.get(v)));
        }
    }
    // positions of the copies, in the order of the cycles
    let mut want = vec![];
    for cy in &cycles {
        let a: Vec<[f64; 3]> = verts(&s, cy).iter().map(|v| map.apply(before[v])).collect();
        let n = a.len();
        for i in 0..n {
            if op == "extrude_tri2" {
                let b = a[(i + 1) % n];
                want.push([(a[i][0] + b[0]) / 2.0, (a[i][1] + b[1]) / 2.0, (a[i][2] + b[2]) / 2.0]);
            } else {
                want.push(a[i]);
            }
        }
    }
    let ids = if cycles.len() > 1 {
        // copies of a vertex in several boundaries coincide, so use the band to tell them apart
        let Ok(now) = snap(&mc.m) else {
            c.fail(&format!("wf:unreadable:{op}"), format!("after {ctx}: the mesh has a dangling link"));
            return false;
        };
        let mut ids = vec![];
        for e in cycles.iter().flatten() {
            let Some(t) = now.e.get(e).and_then(|h| now.e.get(&h.prev)).map(|h| h.origin).filter(|t| new.contains_key(t)) else {
                c.fail(&format!("band:{op}"), format!("after {ctx}: there is no band of faces along half-edge {e}"));
                return false;
            };
            ids.push(t);
        }
        if new.len() != want.len() {
            c.fail(&format!("vertices:{op}"), format!("after {ctx}: {} new vertices instead of {}", new.len(), want.len()));
            return false;
        }
        for (t, p) in ids.iter().zip(&want) {
            c.check(dist(new[t], *p) <= 1e-9, &format!("position:{op}"), || format!("after {ctx}: new vertex {t} is at {:?} instead of {p:?}", new[t]));
        }
        ids
    } else {
        let Some(ids) = match_pos(c, op, &ctx, &new, &want) else { return false };
        ids
    };
    let mut at = 0;
    let mut top = vec![];
    for cy in &cycles {
        let a = verts(&s, cy);
        let n = a.len();
        let t = &ids[at..at + n];
        at += n;
        x.touched.extend(cy);
        if x.removed.is_none() {
            x.gone.push(a.clone());
        }
        for i in 0..n {
            let j = (i + 1) % n;
            match op {
                "extrude_tri" | "extrude_tri_face" => {
                    x.faces.push(vec![a[i], a[j], t[j]]);
                    x.faces.push(vec![a[i], t[j], t[i]]);
                }
                "extrude_tri2" => {
                    x.faces.push(vec![a[i], a[j], t[i]]);
                    x.faces.push(vec![a[j], t[j], t[i]]);
                }
                _ => x.faces.push(vec![a[i], a[j], t[j], t[i]]),
            }
        }
        x.faces.push(t.to_vec());
        top = t.to_vec();
    }
    if !judge(c, mc, op, &ctx, &ids, &x) {
        return false;
    }
    let s = &mc.a.s;
    if let Some(r) = ret {
        let r = ix(r);
        let ok = s.e.contains_key(&r) && {
            let (o, t) = (s.e[&r].origin, s.target(r));
            let n = top.len();
            (0..n).any(|i| (o == top[i] && t == top[(i + 1) % n]) || (t == top[i] && o == top[(i + 1) % n]))
        };
        c.check(ok, &format!("returned:{op}"), || format!("after {ctx}: the returned half-edge {r} isn't on the new outline {top:?}"));
    }
    let e1 = s.wellformed().map(|i| i.euler).unwrap_or(-99);
    let d = if x.removed.is_some() { 0 } else { cycles.len() as i64 };
    c.check(e1 == e0 + d, &format!("euler:{op}"), || format!("after {ctx}: the Euler characteristic went from {e0} to {e1}"));
    true
}

fn c12_t<E: IndexType, V: IndexType, F: IndexType>(c: &mut Case) {
    let mut mc = base::<GT<E, V, F>>(c);
    let rounds = c.rng.int(1, 4);
    for _ in 0..rounds {
        if extrude_once(c, &mut mc) {
            c.nontrivial();
        }
        if c.rng.chance(0.3) {
            let k = c.rng.below(6);
            mc.history(c, k, ALL);
        }
    }
}
fn c12(c: &mut Case) {
    match c.rng.below(3) {
        0 => c12_t::<usize, usize, usize>(c),
        1 => c12_t::<u16, u16, u16>(c),
        _ => c12_t::<u32, u32, u16>(c),
    }
}

pub fn props() -> Vec<Property> {
    vec![
        Property {
            id: "C12",
            workloads: vec![w("extrude", 60000, 480000, c12)],
            floors: vec![("op:extrude", 500), ("op:extrude_tri", 500), ("op:extrude_tri2", 500), ("op:extrude_face", 500), ("op:extrude_tri_face", 500), ("op:extrude_boundary", 300), ("extrude-several-boundaries", 50)],
            rule: "A case is a mesh in space built by a random edit history, on which up to four extrusions with random affine maps are applied; the vertices, positions, faces, boundaries and everything that must stay are compared with an exact expectation. Non-trivial: at least one extrusion was applied.",
            assumptions: vec!["the extruded boundary or face visits every vertex once"],
        },
        Property {
            id: "C13",
            workloads: vec![w("loft", 60000, 480000, c13)],
            floors: vec![("op:loft_tri_back", 500), ("op:loft_tri", 500), ("op:loft_tri_back_closed", 500), ("op:loft_tri_closed", 500), ("op:loft_polygon_back", 500), ("op:loft_polygon", 500), ("closed", 500), ("open", 500)],
            rule: "A case is a mesh built by a random edit history, on which up to three lofts are applied to random boundaries; faces, boundaries, returned edges and everything that must stay are compared with an exact expectation. Non-trivial: at least one loft was applied.",
            assumptions: vec!["the boundary visits every vertex once, the row goes around at most once, and rows consist of complete faces"],
        },
        Property {
            id: "C14",
            workloads: vec![w("fill", 60000, 480000, c14)],
            floors: vec![("op:fill_hole_apex", 2000), ("op:close_hole", 2000), ("several-boundaries", 500)],
            rule: "A case is a mesh built by a random edit history, in which up to four boundaries are filled with an apex or a single face; faces, boundaries and everything that must stay are compared with an exact expectation. Non-trivial: at least one boundary was filled.",
            assumptions: vec!["a boundary filled with an apex visits every vertex once"],
        },
    ]
}
