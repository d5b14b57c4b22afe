//! C27 flattening of curves, C28 path builder, C31 conversion between mesh types.

use crate::cmp::shell;
use crate::gen;
use crate::geo::*;
use crate::ops::canon;
use crate::prims::{pos as pos3, solid, SOLIDS};
use crate::snap::*;
use procedural_modelling::extensions::nalgebra::*;
use procedural_modelling::prelude::*;
use std::collections::{BTreeMap, BTreeSet};
use vmon::{w, Case, Property};

pub type MC = Mesh2d64Curved;
pub type TC = MeshType2d64PNUCurved;
pub type Curve = CurvedEdgeType<2, TC>;

pub fn vpc(p: P2) -> VertexPayloadPNU<f64, 2> {
    VertexPayloadPNU::from_pos(Vec2::new(p[0], p[1]))
}
pub fn posc(m: &MC) -> BTreeMap<usize, P2> {
    MeshBasics::vertices(m).map(|v| (v.id(), [v.payload().pos().x, v.payload().pos().y])).collect()
}
/// The control points, from the origin to the target.
pub fn controls(k: &Curve, a: P2, b: P2) -> Vec<P2> {
    let q = |v: &Vec2<f64>| [v.x, v.y];
    match k {
        CurvedEdgeType::Linear => vec![a, b],
        CurvedEdgeType::QuadraticBezier(c) => vec![a, q(c), b],
        CurvedEdgeType::CubicBezier(c, d) => vec![a, q(c), q(d), b],
    }
}
pub fn bezier(p: &[P2], t: f64) -> P2 {
    let mut q = p.to_vec();
    while q.len() > 1 {
        q = q.windows(2).map(|w| [w[0][0] + t * (w[1][0] - w[0][0]), w[0][1] + t * (w[1][1] - w[0][1])]).collect();
    }
    q[0]
}

/// A 2d mesh with curves on one side of some edges.
pub fn curved_scene(c: &mut Case, curved: f64) -> MC {
    c.phase("setup");
    let size = c.rng.logf(1e-3, 1e3);
    let mut m = MC::default();
    let mut k = 0;
    if c.rng.chance(0.4) {
        // some surface, projected to the plane
        let name = *c.rng.pick(SOLIDS);
        let s = solid::<MeshType3d64PNU>(c, name);
        c.phase("setup");
        if let Ok(sn) = snap(&s.mesh) {
            if sn.v.len() <= 60 {
                let p = pos3(&s.mesh);
                let faces: Vec<Vec<usize>> = sn.f.keys().map(|f| sn.face_verts(*f)).collect();
                let (a, b) = (gen::Frame::random(&mut c.rng, s.size), size / s.size);
                let jitter: Vec<P2> = (0..=sn.v.len()).map(|_| [c.rng.f(-0.1, 0.1), c.rng.f(-0.1, 0.1)]).collect();
                let r = shell::<TC>(&mut c.rng, &faces, |v| {
                    let q = a.at3(p[&v]);
                    vpc([(q[0] - a.o[0]) * b + jitter[v][0] * size, (q[1] - a.o[1]) * b + jitter[v][1] * size])
                });
                if let Some(r) = r {
                    c.count("surface");
                    m = r;
                    k = 1;
                }
            }
        }
    }
    for _ in 0..c.rng.int(1 - k, 3) {
        let g = { let k = c.rng.rare(12, 120); gen::polygon(&mut c.rng, k) };
        let d = diameter(&g.p).max(magnitude(&g.p));
        let o = [c.rng.f(-1.0, 1.0) * size, c.rng.f(-1.0, 1.0) * size];
        m.insert_polygon(g.p.iter().map(|q| vpc([q[0] / d * size + o[0], q[1] / d * size + o[1]])));
    }
    let ids: Vec<usize> = m.face_ids().collect();
    let holes = *c.rng.pick(&[0.0, 0.0, 0.2, 0.5]);
    let mut edges = vec![];
    for f in ids {
        if c.rng.chance(holes) {
            edges.push(m.face(f).edge_id());
            m.remove_face(f);
            c.count("holes");
        }
    }
    c.rng.shuffle(&mut edges);
    for e in edges {
        if c.rng.chance(0.4) {
            let flag = c.rng.chance(0.5);
            m.close_hole(e, Default::default(), flag);
            c.count("reused");
        }
    }
    for _ in 0..c.rng.below(3) {
        m.add_vertex(vpc([c.rng.f(-1.0, 1.0) * size, c.rng.f(-1.0, 1.0) * size]));
        c.count("isolated");
    }
    if c.rng.chance(0.3) {
        let k = c.rng.int(2, 5);
        let p: Vec<_> = (0..k).map(|_| vpc([c.rng.f(-1.0, 1.0) * size, c.rng.f(-1.0, 1.0) * size])).collect();
        m.insert_path(p);
        c.count("wires");
    }
    let s = match snap(&m) {
        Ok(s) => s,
        Err((sig, msg)) => {
            c.fail(&format!("wf:{sig}:setup"), msg);
            return m;
        }
    };
    let p = posc(&m);
    for (i, e) in &s.e {
        if e.twin < *i || !c.rng.chance(curved) {
            continue;
        }
        let i = if c.rng.chance(0.5) { *i } else { e.twin };
        let (a, b) = (p[&s.e[&i].origin], p[&s.target(i)]);
        let k = random_curve(c, a, b);
        m.edge_mut(i).set_curve_type(k);
    }
    m
}
pub fn random_curve(c: &mut Case, a: P2, b: P2) -> Curve {
    let d = d2(a, b).max(1e-9);
    let n = [-(b[1] - a[1]), b[0] - a[0]];
    // along the edge and to its side
    let at = |s: f64, t: f64| Vec2::new(a[0] + s * (b[0] - a[0]) + t * n[0], a[1] + s * (b[1] - a[1]) + t * n[1]);
    let _ = d;
    let r = &mut c.rng;
    let (kind, k) = match r.below(12) {
        0 | 1 => ("quadratic", CurvedEdgeType::QuadraticBezier(at(r.f(0.0, 1.0), r.f(-1.0, 1.0)))),
        2 => ("quadratic-wild", CurvedEdgeType::QuadraticBezier(at(r.f(-2.0, 3.0), r.f(-3.0, 3.0)))),
        3 => ("quadratic-flat", CurvedEdgeType::QuadraticBezier(at(r.f(0.0, 1.0), r.logf(1e-8, 1e-2)))),
        4 | 5 => ("cubic", CurvedEdgeType::CubicBezier(at(r.f(0.0, 1.0), r.f(-1.0, 1.0)), at(r.f(0.0, 1.0), r.f(-1.0, 1.0)))),
        6 => {
            let h = r.logf(1e-3, 2.0);
            ("cubic-s", CurvedEdgeType::CubicBezier(at(r.f(0.2, 0.4), h), at(r.f(0.6, 0.8), -h)))
        }
        7 => ("cubic-loop", CurvedEdgeType::CubicBezier(at(r.f(1.2, 3.0), r.f(0.5, 2.0)), at(r.f(-2.0, -0.2), r.f(0.5, 2.0)))),
        8 => ("cubic-end", {
            let x = at(r.f(0.0, 1.0), r.f(-1.0, 1.0));
            if r.chance(0.5) {
                CurvedEdgeType::CubicBezier(at(0.0, 0.0), x)
            } else {
                CurvedEdgeType::CubicBezier(x, at(1.0, 0.0))
            }
        }),
        9 => ("cubic-flat", CurvedEdgeType::CubicBezier(at(1.0 / 3.0, r.logf(1e-8, 1e-2)), at(2.0 / 3.0, -r.logf(1e-8, 1e-2)))),
        10 => ("collinear", CurvedEdgeType::CubicBezier(at(r.f(0.0, 1.0), 0.0), at(r.f(0.0, 1.0), 0.0))),
        _ => ("uniform", CurvedEdgeType::CubicBezier(at(1.0 / 3.0, 0.0), at(2.0 / 3.0, 0.0))),
    };
    c.count(&format!("curve:{kind}"));
    k
}

/// For every pair of adjacent original vertices the new vertices between them.
fn chains(s: &Snap, old: &BTreeSet<usize>) -> Result<BTreeMap<(usize, usize), Vec<usize>>, String> {
    let mut r = BTreeMap::new();
    for v in old {
        if s.v[v] == NO {
            continue;
        }
        for e in s.wheel(*v) {
            let (mut e, mut ch) = (e, vec![]);
            while !old.contains(&s.target(e)) {
                let t = s.target(e);
                if s.wheel(t).len() != 2 {
                    return Err(format!("the new vertex {t} has {} edges", s.wheel(t).len()));
                }
                if ch.len() > s.e.len() {
                    return Err("endless chain".into());
                }
                ch.push(t);
                e = s.e[&e].next;
            }
            if r.insert((*v, s.target(e)), ch).is_some() {
                return Err(format!("several chains between {v} and {}", s.target(e)));
            }
        }
    }
    Ok(r)
}
/// Parameters of points that lie on the curve in this order.
fn parameters(p: &[P2], q: &[P2], tol: f64) -> Option<Vec<f64>> {
    let steps = 512.max(24 * (q.len() + 1));
    let mut r = vec![];
    let mut k = 0usize;
    for x in q {
        let f = |t: f64| d2(bezier(p, t.clamp(0.0, 1.0)), *x);
        let h = 1.0 / steps as f64;
        let mut found = None;
        let last: f64 = r.last().copied().unwrap_or(0.0);
        while k <= steps {
            let t = k as f64 * h;
            // distances can't change faster than the curve moves
            if f(t) <= f(t - h).min(f(t + h)) + tol {
                let (mut a, mut b) = ((t - h).max(last), (t + h).min(1.0));
                for _ in 0..80 {
                    let (u, v) = (a + (b - a) / 3.0, b - (b - a) / 3.0);
                    if f(u) < f(v) {
                        b = v;
                    } else {
                        a = u;
                    }
                }
                let t = (a + b) / 2.0;
                if f(t) <= tol {
                    found = Some(t);
                    break;
                }
            }
            k += 1;
        }
        r.push(found?);
        k = k.saturating_sub(1);
    }
    Some(r)
}

fn c27(c: &mut Case) {
    let chance = *c.rng.pick(&[0.2, 0.6, 1.0]);
    let m = curved_scene(c, chance);
    let (s0, _) = monitor(c, &m, "scene");
    let p0 = posc(&m);
    let curve: BTreeMap<usize, Curve> = s0.e.keys().map(|e| (*e, m.edge(*e).curve_type())).collect();
    let mag = p0.values().flatten().fold(0.0f64, |a, b| a.max(b.abs()));
    let size = s0.e.keys().map(|e| d2(p0[&s0.e[e].origin], p0[&s0.target(*e)])).fold(0.0, f64::max);
    let tol = size * c.rng.logf(if c.thorough { 1e-5 } else { 1e-4 }, 1.0);
    c.log(format!("tolerance {tol}"));
    for (e, k) in &curve {
        if *k != CurvedEdgeType::Linear {
            c.log(format!("{e}: {:?}", controls(k, p0[&s0.e[e].origin], p0[&s0.target(*e)])));
        }
    }
    c.phase("has_curved_edges");
    let any = curve.values().any(|k| *k != CurvedEdgeType::Linear);
    c.check(m.has_curved_edges::<2>() == any, "has-curves", || format!("has_curved_edges is {}", !any));
    let full = curve.iter().find(|(e, k)| EdgePayload::is_empty(EdgeBasics::payload(m.edge(**e))) != (**k == CurvedEdgeType::Linear));
    c.check(full.is_none(), "is-empty", || format!("is_empty is wrong for the edge and curve {full:?}"));
    c.phase("points");
    for (e, k) in curve.iter().take(6) {
        let q = controls(k, p0[&s0.e[e].origin], p0[&s0.target(*e)]);
        let big = q.iter().flatten().fold(0.0f64, |a, b| a.max(b.abs()));
        let u = c.rng.unit();
        let t = *c.rng.pick(&[0.0, 1.0, 0.5, u]);
        let x = k.point_at(m.edge(*e), &m, t);
        c.check(d2([x.x, x.y], bezier(&q, t)) <= 1e-13 * big, "point-at", || format!("the point of {q:?} at {t} is {x:?} instead of {:?}", bezier(&q, t)));
        let n = c.rng.int(1, 9);
        let n = c.rng.rare(n, 200);
        let l: Vec<P2> = m.edge(*e).flatten_uniform(n, &m).iter().map(|v| [v.x, v.y]).collect();
        let ok = l.len() == n - 1 && l.iter().enumerate().all(|(i, x)| d2(*x, bezier(&q, (i + 1) as f64 / n as f64)) <= 1e-13 * big);
        c.check(ok, "uniform", || format!("flatten_uniform({n}) of {q:?} gives {l:?}"));
    }
    c.phase("flatten");
    let mut g = m.clone();
    g.flatten_curved_edges(tol);
    c.phase("judge");
    let (s1, _) = monitor(c, &g, "flat");
    c.check(s0.hash() == snap(&m).map(|s| s.hash()).unwrap_or(0), "original", || "the original changed".into());
    let p1 = posc(&g);
    c.check(!g.has_curved_edges::<2>() && s1.e.keys().all(|e| g.edge(*e).curve_type() == CurvedEdgeType::Linear), "still-curved", || "there are curved edges left".into());
    c.check(p0.iter().all(|(v, p)| p1.get(v) == Some(p)), "moved", || "an original vertex moved or vanished".into());
    let old: BTreeSet<usize> = p0.keys().copied().collect();
    let ch = match chains(&s1, &old) {
        Ok(x) => x,
        Err(e) => {
            c.fail("chains", e);
            return;
        }
    };
    let keys: BTreeSet<(usize, usize)> = s0.e.iter().map(|(i, e)| (e.origin, s0.target(*i))).collect();
    c.check(ch.keys().copied().collect::<BTreeSet<_>>() == keys, "edges", || format!("chains {ch:?} instead of the edges {keys:?}"));
    c.check(ch.values().map(|x| x.len()).sum::<usize>() == 2 * (p1.len() - p0.len()), "extra-vertices", || "there are new vertices outside of the chains".into());
    let faces = |s: &Snap| -> BTreeMap<usize, Vec<usize>> { s.f.keys().map(|f| (*f, canon(&s.face_verts(*f).into_iter().filter(|v| old.contains(v)).collect::<Vec<_>>()))).collect() };
    c.check(faces(&s0) == faces(&s1), "faces", || format!("faces {:?} instead of {:?}", faces(&s1), faces(&s0)));
    c.check(s0.f.iter().all(|(f, x)| s1.f[f].curved == x.curved), "face-flags", || "a face flag changed".into());
    let bounds = |s: &Snap| -> BTreeSet<Vec<usize>> { s.boundary_cycles().iter().map(|y| canon(&y.iter().map(|e| s.e[e].origin).filter(|v| old.contains(v)).collect::<Vec<_>>())).collect() };
    c.check(bounds(&s0) == bounds(&s1), "boundaries", || format!("boundaries {:?} instead of {:?}", bounds(&s1), bounds(&s0)));
    for (e, k) in &curve {
        let (u, v) = (s0.e[e].origin, s0.target(*e));
        let (Some(x), Some(y)) = (ch.get(&(u, v)), ch.get(&(v, u))) else { continue };
        c.check(x.iter().rev().eq(y.iter()), "sides", || format!("the sides of the edge {u}-{v} have the new vertices {x:?} and {y:?}"));
        if *k == CurvedEdgeType::Linear {
            if curve[&s0.e[e].twin] == CurvedEdgeType::Linear {
                c.check(x.is_empty(), "straight", || format!("the straight edge {u}-{v} got new vertices {x:?}"));
            }
            continue;
        }
        let q = controls(k, p0[&u], p0[&v]);
        let xs: Vec<P2> = x.iter().map(|v| p1[v]).collect();
        let big = q.iter().flatten().fold(mag, |a, b| a.max(b.abs()));
        let Some(mut t) = parameters(&q, &xs, 1e-9 * big) else {
            c.fail("off-curve", format!("the new vertices {xs:?} don't lie on the curve {q:?} in this order"));
            continue;
        };
        t.insert(0, 0.0);
        t.push(1.0);
        let mut pts = xs.clone();
        pts.insert(0, p0[&u]);
        pts.push(p0[&v]);
        let mut worst = 0.0f64;
        for i in 0..pts.len() - 1 {
            for j in 1..16 {
                let z = bezier(&q, t[i] + (t[i + 1] - t[i]) * j as f64 / 16.0);
                worst = worst.max(seg_dist(z, pts[i], pts[i + 1]));
            }
        }
        c.check(worst <= 1.2 * tol + 1e-9 * big, "tolerance", || format!("the curve {q:?} is {worst} away from its {} segments, the tolerance is {tol}", pts.len() - 1));
        // a curve that is (almost) drawn as a line stays one segment
        let dev = (0..=64).map(|i| i as f64 / 64.0).map(|t| d2(bezier(&q, t), bezier(&[q[0], q[q.len() - 1]], t))).fold(0.0, f64::max);
        if dev < 0.9 * tol {
            c.check(xs.is_empty(), "too-many", || format!("the curve {q:?} deviates at most {dev} from a line, but was split into {}", pts.len() - 1));
            c.count("almost-straight");
        }
        c.add("segments", pts.len() as u64 - 1);
        c.max("segments-per-curve", pts.len() as u64 - 1);
        c.count(if xs.is_empty() { "one-segment" } else { "split" });
        if worst > 0.3 * tol {
            c.count("near-tolerance");
        }
    }
    // a tighter tolerance
    c.phase("tighter");
    let mut h = m.clone();
    h.flatten_curved_edges(tol * c.rng.f(0.2, 1.0));
    let (s2, _) = monitor(c, &h, "tighter");
    if let Ok(ch2) = chains(&s2, &old) {
        for (k, x) in &ch {
            let n = ch2.get(k).map(|y| y.len()).unwrap_or(0);
            c.check(n >= x.len(), "coarser", || format!("the edge {k:?} has {n} new vertices with a tighter tolerance instead of {}", x.len()));
        }
    } else {
        c.fail("chains", "tighter".into());
    }
    c.phase("again");
    let (before, pb) = (s1.hash(), p1.clone());
    g.flatten_curved_edges(tol * 0.1);
    let (s3, _) = monitor(c, &g, "again");
    c.check(s3.hash() == before && posc(&g) == pb, "not-idempotent", || "flattening again changed the mesh".into());
    c.state(s1.hash());
    if any {
        c.nontrivial();
    }
}

// ---------------------------------------------------------------------------------------- C31

/// The same mesh with consecutive ids.
pub fn same_in_order(c: &mut Case, what: &str, a: &Snap, b: &Snap) {
    let ids = |x: Vec<usize>| -> BTreeMap<usize, usize> { x.into_iter().enumerate().map(|(i, v)| (v, i)).chain([(NO, NO)]).collect() };
    let (v, e, f) = (ids(a.v.keys().copied().collect()), ids(a.e.keys().copied().collect()), ids(a.f.keys().copied().collect()));
    c.check(b.v.keys().copied().eq(0..a.v.len()) && b.e.keys().copied().eq(0..a.e.len()) && b.f.keys().copied().eq(0..a.f.len()), &format!("ids:{what}"), || {
        format!("{}/{}/{} elements instead of {}/{}/{}", b.v.len(), b.e.len(), b.f.len(), a.v.len(), a.e.len(), a.f.len())
    });
    for (i, x) in &a.e {
        let y = &b.e[&e[i]];
        let want = He { origin: v[&x.origin], twin: e[&x.twin], next: e[&x.next], prev: e[&x.prev], face: f[&x.face] };
        c.check(*y == want, &format!("links:{what}"), || format!("half-edge {i} became {y:?} instead of {want:?}"));
    }
    for (i, x) in &a.f {
        let y = &b.f[&f[i]];
        c.check(y.curved == x.curved && y.edge == e[&x.edge], &format!("face:{what}"), || format!("face {i} {x:?} became {y:?}"));
    }
    for (i, x) in &a.v {
        let y = b.v[&v[i]];
        c.check(y == e[x], &format!("vertex-edge:{what}"), || format!("the edge of vertex {i} became {y}"));
    }
}
fn to_nd<const D: usize>(c: &mut Case, m: &MC, tol: f64) {
    let s = snap(m).unwrap_or_default();
    let (p, curves): (_, Vec<Curve>) = (posc(m), m.edges().map(|e| e.curve_type()).collect());
    let mut flat = m.clone();
    flat.flatten_curved_edges(tol);
    let sf = snap(&flat).unwrap_or_default();
    let pf = posc(&flat);
    c.phase(format!("to_nd {D}"));
    let r = m.to_nd::<D>(tol);
    c.phase("judge");
    let (sr, _) = monitor(c, &r, &format!("{D}d"));
    same_in_order(c, &format!("{D}d"), &sf, &sr);
    c.check(r.has_consecutive_vertex_ids() && r.is_open() == flat.is_open(), "flags", || "consecutive ids or is_open".into());
    for ((v, q), x) in pf.iter().zip(MeshBasics::vertices(&r)) {
        let y = x.payload().pos();
        let ok = (0..D).all(|i| y[i] == if i < 2 { q[i] } else { 0.0 });
        c.check(ok, "position", || format!("vertex {v} at {q:?} moved to {y:?}"));
    }
    let same = snap(m).map(|x| x == s).unwrap_or(false) && posc(m) == p && m.edges().map(|e| e.curve_type()).eq(curves.iter().copied());
    c.check(same, "original", || "the original changed".into());
    if s.f.keys().next_back().is_some_and(|f| *f + 1 > s.f.len()) {
        c.count("sparse-faces");
    }
    c.count(&format!("to {D}d"));
    c.state(sr.hash());
}
pub fn c31_nd(c: &mut Case) {
    let chance = *c.rng.pick(&[0.0, 0.3]);
    let m = curved_scene(c, chance);
    let mag = posc(&m).values().flatten().fold(0.0f64, |a, b| a.max(b.abs()));
    let tol = mag * 0.05;
    c.fingerprint(snap(&m).map(|s| s.hash()).unwrap_or(0));
    match c.rng.below(5) {
        0 => to_nd::<2>(c, &m, tol),
        1 | 2 => to_nd::<3>(c, &m, tol),
        3 => to_nd::<4>(c, &m, tol),
        _ => to_nd::<10>(c, &m, tol),
    }
    c.nontrivial();
}

pub fn props() -> Vec<Property> {
    vec![
        Property {
            id: "C27",
            workloads: vec![w("flatten", 16000, 128000, c27)],
            floors: vec![
                ("curve:quadratic", 500), ("curve:quadratic-wild", 500), ("curve:quadratic-flat", 500), ("curve:cubic", 500), ("curve:cubic-s", 500), ("curve:cubic-loop", 500), ("curve:cubic-end", 500),
                ("curve:collinear", 500), ("split", 5000), ("one-segment", 2000), ("near-tolerance", 2000), ("almost-straight", 1000), ("surface", 500), ("isolated", 500), ("wires", 500), ("reused", 200),
            ],
            rule: "A case is a 2d mesh with curves on one side of random edges and a tolerance; the new vertices of every edge are located on the exact curve and the distance between the curve and the segments is measured. Non-trivial: there is a curved edge.",
            assumptions: vec!["a curve is stored on one half-edge of the pair; distances up to 1.2 times the tolerance are accepted, since the library measures at three points per segment"],
        },
    ]
}
