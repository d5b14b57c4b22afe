//! C07 memory safety: exclusive references natively, and the workloads of the other checks under
//! the address sanitizer and the Miri interpreter.

use crate::curve::curved_scene;
use crate::gen;
use crate::geo::*;
use crate::machine::*;
use crate::prims::{payloads, vp};
use crate::snap::*;
use crate::text::synth;
use crate::tri::{face_mesh, flat, WAYS};
use crate::types::*;
use procedural_modelling::extensions::nalgebra::*;
use procedural_modelling::mesh::*;
use procedural_modelling::operations::*;
use procedural_modelling::prelude::*;
use procedural_modelling::primitives::*;
use std::collections::{BTreeMap, BTreeSet};
use std::process::{Command, Stdio};
use vmon::{w, Case, Property};

type M3 = Mesh3d64;

// ------------------------------------------------------------------------------ exclusive references

fn addresses<X>(c: &mut Case, what: &str, refs: &[&mut X], size: usize) {
    let mut a: Vec<usize> = refs.iter().map(|r| *r as *const X as usize).collect();
    a.sort();
    c.check(a.windows(2).all(|w| w[1] - w[0] >= size), &format!("aliased:{what}"), || format!("{what} hands out overlapping references"));
    c.add("references", refs.len() as u64);
}

fn mut_t<T: Tagged>(c: &mut Case) {
    let mut mc = Machine::<T>::new(*c.rng.pick(&[5usize, 10, 20]), true);
    let steps = c.rng.int(4, 45);
    mc.history(c, steps, ALL);
    let s = mc.a.s.clone();
    if s.e.is_empty() {
        return;
    }
    let mut m = mc.m;
    let mut tag = 1u64 << 40;
    let mut ep: BTreeMap<usize, u64> = mc.a.ep.clone();
    let mut fp = mc.a.fp.clone();
    let mut pv = mc.a.vp.clone();
    let size = std::mem::size_of::<HalfEdgeImpl<T>>();
    // the cycles
    let all: Vec<usize> = s.e.keys().copied().collect();
    let rounds = if cfg!(miri) { 2 } else { 12 };
    for _ in 0..rounds {
        let i = *c.rng.pick(&all);
        let cy = s.cycle(i);
        let e = m.edge(T::E::new(i)).clone();
        c.phase("edges_face_mut");
        // sometimes only a part is used
        let k = if c.rng.chance(0.3) { c.rng.below(cy.len() + 1) } else { cy.len() };
        let part = k < cy.len();
        let mut r: Vec<&mut HalfEdgeImpl<T>> = if part { e.edges_face_mut(&mut m).take(k).collect() } else { e.edges_face_mut(&mut m).take(cy.len() + 3).collect() };
        c.phase("judge");
        addresses(c, "edges_face_mut", &r, size);
        let ids: Vec<usize> = r.iter().map(|e| ix(e.id())).collect();
        c.check(ids == cy[..k], "cycle:edges_face_mut", || format!("edges_face_mut of {i} gives {ids:?} instead of {:?}", &cy[..k]));
        c.rng.shuffle(&mut r);
        for e in r.iter_mut() {
            tag += 1;
            EdgeBasics::payload_mut(*e).0 = tag;
            ep.insert(ix(e.id()), tag);
        }
        // all of them are still usable
        let ok = r.iter().all(|e| EdgeBasics::payload(&**e).0 == ep[&ix(e.id())]);
        c.check(ok, "lost-write:edges_face_mut", || "a write through one reference changed another one".into());
        c.count(if part { "partial" } else { "cycles" });
    }
    c.phase("elements");
    {
        let mut r: Vec<_> = MeshBasics::edges_mut(&mut m).collect();
        addresses(c, "edges_mut", &r, size);
        c.rng.shuffle(&mut r);
        for e in r {
            tag += 1;
            EdgeBasics::payload_mut(e).0 = tag;
            ep.insert(ix(e.id()), tag);
        }
        let mut r: Vec<_> = MeshBasics::vertices_mut(&mut m).collect();
        addresses(c, "vertices_mut", &r, std::mem::size_of::<HalfEdgeVertexImpl<T>>());
        c.rng.shuffle(&mut r);
        for v in r {
            tag += 1;
            VertexBasics::payload_mut(v).0 = tag;
            pv.insert(ix(v.id()), tag);
        }
        let mut r: Vec<_> = MeshBasics::faces_mut(&mut m).collect();
        addresses(c, "faces_mut", &r, std::mem::size_of::<HalfEdgeFaceImpl<T>>());
        c.rng.shuffle(&mut r);
        for f in r {
            tag += 1;
            FaceBasics::payload_mut(f).0 = tag;
            fp.insert(ix(f.id()), tag);
        }
    }
    c.phase("judge");
    match read::<T>(&m) {
        Err((sig, msg)) => c.fail(&format!("wf:{sig}"), msg),
        Ok(r) => {
            c.check(r.ep == ep && r.vp == pv && r.fp == fp, "lost-write", || "a payload differs from what was written through its reference".into());
            c.check(r.s == s, "links", || "writing payloads changed the links".into());
        }
    }
    // chains that don't return to their start, and edges that are rewired while iterating
    for _ in 0..3 {
        let i = *c.rng.pick(&all);
        let cy = s.cycle(i);
        if cy.len() < 3 {
            continue;
        }
        let mut n = m.clone();
        let e = n.edge(T::E::new(i)).clone();
        let max = all.len() + 2;
        let (a, b) = (c.rng.below(cy.len()), c.rng.below(cy.len()));
        if c.rng.chance(0.5) {
            c.phase("rho");
            n.edge_mut(T::E::new(cy[a])).set_next(T::E::new(cy[b]));
            // cy[a] != cy[b]'s predecessor: the start may never be reached again
            let r = c.may_panic(|c| {
                let r: Vec<&mut HalfEdgeImpl<T>> = e.edges_face_mut(&mut n).take(max).collect();
                addresses(c, "edges_face_mut of a broken chain", &r, size);
                r.len()
            });
            c.count(if r.is_ok() { "rho-ended" } else { "rho-panicked" });
        } else {
            c.phase("rewired");
            let r = c.may_panic(|c| {
                let mut r: Vec<&mut HalfEdgeImpl<T>> = vec![];
                for (k, x) in e.edges_face_mut(&mut n).take(max).enumerate() {
                    if k == a {
                        x.set_next(T::E::new(cy[b]));
                    }
                    r.push(x);
                }
                addresses(c, "edges_face_mut of a rewired chain", &r, size);
                for x in r.iter_mut() {
                    EdgeBasics::payload_mut(*x).0 = 0;
                }
            });
            c.count(if r.is_ok() { "rewired-ended" } else { "rewired-panicked" });
        }
    }
    c.state(s.hash());
    c.nontrivial();
}
fn muts(c: &mut Case) {
    match c.rng.below(3) {
        0 => mut_t::<TT<usize, usize, usize>>(c),
        1 => mut_t::<TT<u32, u16, u8>>(c),
        _ => mut_t::<TT<u16, u32, u32>>(c),
    }
}

// ---------------------------------------------------------------------------------------------- tour

const TOPICS: &[&str] = &["links", "primitives", "lofts", "triangulation", "export", "subdivision", "curves", "paths", "text", "comparison", "graph", "transforms", "queries", "limits"];

fn small<T: Tagged>(c: &mut Case, steps: usize) -> HalfEdgeMeshImpl<T> {
    let mut mc = Machine::<T>::new(8, true);
    mc.history(c, steps, ALL);
    mc.m
}

fn solid(c: &mut Case) -> M3 {
    let r = c.rng.logf(1e-2, 1e2);
    let n = c.rng.int(3, 6);
    match c.rng.below(9) {
        0 => M3::cuboid(Vec3::new(r, 1.0, 2.0)),
        1 => M3::regular_tetrahedron(r),
        2 => M3::regular_octahedron(r),
        3 => M3::regular_pyramid(r, 1.0, n),
        4 => M3::regular_prism(r, 1.0, n),
        5 => M3::uniform_antiprism(r, n),
        6 => M3::regular_icosahedron(r),
        7 => M3::uv_sphere(r, 3, 3),
        _ => M3::dodecahedron(r),
    }
}

/// Drives many parts of the library with small inputs; without oracles, since it only counts what
/// the sanitizers say.
fn topic(c: &mut Case, name: &str) {
    match name {
        "links" => {
            let m = small::<TT<usize, usize, usize>>(c, 10);
            let _ = MeshChecker::check(&m);
            let mut n = m.clone();
            n.flip();
            let f: Vec<_> = m.face_ids().collect();
            for f in f.iter().take(2) {
                n.remove_face(*f);
            }
            n.add_vertex(Pay(1));
            n.clear();
        }
        "primitives" => {
            let m = solid(c);
            let _ = MeshChecker::check(&m);
            let n = c.rng.int(3, 5);
            let p: Vec<P3> = gen::regular(&mut c.rng, n).iter().map(|q| [q[0], 0.0, q[1]]).collect();
            let mut m = M3::default();
            m.insert_prism(payloads(&p), 1.0);
            Make2dShape::<MeshType3d64PNU>::insert_dihedron(&mut m, payloads(&p));
            m.insert_pyramid(payloads(&p), vp([0.0, 1.0, 0.0]));
        }
        "lofts" => {
            let mut m = M3::default();
            let n = c.rng.int(3, 5);
            let p: Vec<P3> = gen::regular(&mut c.rng, n).iter().map(|q| [q[0], 0.0, q[1]]).collect();
            let e = Make2dShape::<MeshType3d64PNU>::insert_polygon(&mut m, payloads(&p));
            let up = NdAffine::new(nalgebra::SMatrix::<f64, 3, 3>::identity(), Vec3::new(0.0, 1.0, 0.0));
            let e = match c.rng.below(5) {
                0 => m.extrude(e, up),
                1 => m.extrude_tri(e, up),
                2 => m.extrude_tri2(e, up),
                3 => m.loft_polygon_back(e, 2, 2, payloads(&p)),
                _ => m.loft_tri_closed(e, payloads(&p)),
            };
            let b = if m.edge(e).is_boundary_self() { e } else { m.edge(e).twin_id() };
            match c.rng.below(3) {
                0 => {
                    m.fill_hole_apex(b, vp([0.0, 3.0, 0.0]));
                }
                1 => {
                    m.close_hole_default(b);
                }
                _ => {
                    m.extrude_boundary(up);
                }
            }
        }
        "triangulation" => {
            let g = gen::polygon(&mut c.rng, if cfg!(miri) { 7 } else { 20 });
            let m = face_mesh(&g.p, &flat());
            for _ in 0..if cfg!(miri) { 3 } else { 17 } {
                let way = *c.rng.pick(WAYS);
                if way.applies(&g.p) {
                    let mut buf = vec![7];
                    way.run(c, &m, 0, &mut buf);
                    c.add("indices", buf.len() as u64);
                }
            }
        }
        "export" => {
            let mut m = solid(c);
            let f = m.face_ids().next().unwrap();
            m.remove_face(f);
            let algo = *c.rng.pick(&[TriangulationAlgorithm::Auto, TriangulationAlgorithm::Sweep, TriangulationAlgorithm::Delaunay, TriangulationAlgorithm::Fan]);
            m.generate_smooth_normals();
            let (a, _) = m.triangulate(algo, &mut Default::default());
            let (b, _) = m.triangulate_and_generate_flat_normals_post(algo, &mut Default::default());
            c.add("indices", (a.len() + b.len()) as u64);
        }
        "subdivision" => {
            let mut m = if c.rng.chance(0.5) { M3::regular_tetrahedron(1.0) } else { M3::regular_octahedron(1.0) };
            if c.rng.chance(0.5) {
                let f = m.face_ids().next().unwrap();
                m.remove_face(f);
            }
            m.subdivision_frequency(SubdivisionDescription::new(2, 0), LinearVertexInterpolator::<3> {});
        }
        "curves" => {
            let mut m = if cfg!(miri) {
                let mut m = MeshNd64Curved::default();
                let p = gen::regular(&mut c.rng, 4);
                m.insert_polygon(p.iter().map(|q| crate::curve::vpc(*q)));
                for i in [0, 2, 5] {
                    let k = crate::curve::random_curve(c, [0.0, 0.0], [1.0, 0.5]);
                    m.edge_mut(i).set_curve_type(k);
                }
                m
            } else {
                curved_scene(c, 0.4)
            };
            let ids: Vec<_> = m.edge_ids().collect();
            if let Some(e) = ids.first() {
                let _ = m.edge(*e).flatten_uniform(3, &m);
                let _ = m.edge(*e).centroid(&m);
            }
            m.flatten_curved_edges(0.05);
        }
        "paths" => {
            let mut m = MeshNd64Curved::default();
            let mut v = |c: &mut Case| Vec2::new(c.rng.f(-1.0, 1.0), c.rng.f(-1.0, 1.0));
            let (a, x, y, z) = (v(c), v(c), v(c), v(c));
            let mut b = PathBuilder::<TC2, NdAffine<f64, 2>>::start(&mut m, a);
            b.line(x).quad(y, z).cubic(x, y, a + x);
            b.line_to(b.start_vertex());
            b.close(Default::default());
            let e = m.edges().find(|e| e.is_boundary_self()).map(|e| e.id()).unwrap();
            let mut b = PathBuilder::<TC2, NdAffine<f64, 2>>::start_at_edge(&mut m, e);
            b.line(y).line(z);
        }
        "text" => {
            let sy = synth(&mut c.rng);
            let mut f = Font::new(&sy.data, 2.0);
            let t: String = (0..3).map(|_| *c.rng.pick(&sy.chars)).collect();
            let mut m = MeshNd64Curved::default();
            f.layout_text::<2, TC2>(&t, &mut m);
            f.set_scale(3.0);
            c.add("advances", (f.get_advance('A') > 0.0) as u64);
        }
        "comparison" => {
            let m = solid(c);
            let mut n = m.clone();
            let _ = m.is_trivially_isomorphic(&n);
            n.flip();
            let _ = m.is_trivially_isomorphic_pos::<3, f64, Vec3<f64>>(&n, 1e-6);
            if m.num_vertices() <= 8 {
                let _ = m.is_isomorphic_by_pos::<f64, 3, Vec3<f64>, MeshType3d64PNU>(&n, 1e-6);
            }
        }
        "graph" => {
            let mut mc = Machine::<GT<usize, usize, usize>>::new(6, true);
            mc.history(c, 8, ALL);
            let m = &mc.m;
            let ids: Vec<usize> = MeshBasics::vertex_ids(m).collect();
            if let (Some(a), Some(b)) = (ids.first(), ids.last()) {
                let _ = m.shortest_path(*a, *b);
            }
            let _ = m.adjacency_matrix::<f64>();
            let _ = m.laplacian_euclidean::<3>();
            let _ = m.degrees().count();
        }
        "transforms" => {
            let mut m = solid(c);
            m.transform(&NdAffine::new(nalgebra::SMatrix::<f64, 3, 3>::identity(), Vec3::new(0.0, 1.0, 0.0)));
            m.translate(&Vec3::new(1.0, 2.0, 3.0));
            m.scale(&Vec3::new(1.0, 2.0, 3.0));
            m.rotate(&NdRotate::<f64, 3>::from_axis_angle(nalgebra::Vector3::y_axis(), 0.3));
            let _ = m.centroid();
        }
        "queries" => {
            let m = small::<TT<u32, u16, u8>>(c, 10);
            let mut n = 0;
            for e in MeshBasics::edges(&m) {
                n += e.edges_face(&m).count() + e.edges_face_back(&m).count() + e.face_ids(&m).count() + usize::from(e.same_face(&m, e.origin_id()));
            }
            for v in MeshBasics::vertices(&m) {
                n += v.edges_out(&m).count() + v.edges_in(&m).count() + v.neighbor_ids(&m).count() + v.faces(&m).count();
            }
            for f in MeshBasics::faces(&m) {
                n += f.edges(&m).count() + f.vertices(&m).count() + f.num_vertices(&m);
            }
            c.add("visited", n as u64);
        }
        "limits" => {
            // ids outside of the containers are rejected instead of being read
            let m = small::<TT<usize, usize, usize>>(c, 6);
            let far = *c.rng.pick(&[0usize, 1, 3, 9, 40, 1 << 20, 1 << 60, usize::MAX - 1, usize::MAX]);
            let mut hits = 0u64;
            let mut n = m.clone();
            hits += c.may_panic(|_| m.vertex(far).payload().0).is_ok() as u64;
            hits += c.may_panic(|_| EdgeBasics::payload(m.edge(far)).0).is_ok() as u64;
            hits += c.may_panic(|_| FaceBasics::payload(m.face(far)).0).is_ok() as u64;
            hits += c.may_panic(|_| VertexBasics::payload_mut(n.vertex_mut(far)).0 = 3).is_ok() as u64;
            hits += c.may_panic(|_| EdgeBasics::payload_mut(n.edge_mut(far)).0 = 3).is_ok() as u64;
            hits += c.may_panic(|_| FaceBasics::payload_mut(n.face_mut(far)).0 = 3).is_ok() as u64;
            hits += c.may_panic(|_| m.has_vertex(far)).is_ok() as u64;
            hits += c.may_panic(|_| n.remove_face(far)).is_ok() as u64;
            hits += c.may_panic(|_| m.shared_edge(far, far / 2).is_some()).is_ok() as u64;
            c.add("answered", hits);
        }
        _ => unreachable!(),
    }
}
type TC2 = crate::curve::TC;
type MeshNd64Curved = crate::curve::MC;

fn tour(c: &mut Case) {
    let name = TOPICS[(c.index % TOPICS.len() as u64) as usize];
    c.phase(name);
    // what the library computes is judged by other properties
    let r = c.may_panic(|c| topic(c, name));
    c.count(name);
    if let Err(e) = r {
        c.log(e);
        c.count("ended-by-panic");
    }
    c.fingerprint(c.index);
    c.nontrivial();
}

// ------------------------------------------------------------------------------------------- tools

/// Runs a range of cases under a tool and reads its judgement.
fn run_tool(c: &mut Case, tool: &str, prop: &str, wl: &str, first: u64, count: u64) {
    let range = format!("{prop} {wl} {first} {count}");
    c.log(format!("{tool}: {range}"));
    let root = std::env::var("VMON_ROOT").unwrap_or_else(|_| "/verif".into());
    let mut cmd;
    if tool == "miri" {
        cmd = Command::new("timeout");
        cmd.args(["-k", "5", "400", "cargo", "+nightly", "miri", "run", "-q", "--offline", "--manifest-path", &format!("{root}/san/Cargo.toml"), "--target-dir", &format!("{root}/target-miri"), "--"]);
        cmd.env("MIRIFLAGS", "-Zmiri-disable-isolation").env("RUST_BACKTRACE", "0");
    } else {
        cmd = Command::new("timeout");
        cmd.args(["-k", "5", "400", &format!("{root}/target-asan/x86_64-unknown-linux-gnu/debug/san-harness")]);
        cmd.env("ASAN_OPTIONS", "detect_leaks=1:abort_on_error=0:exitcode=77:detect_stack_use_after_return=1");
    }
    cmd.args(range.split(' ')).args(c.thorough.then_some("thorough"));
    cmd.env_remove("RUSTUP_TOOLCHAIN").env("RUSTFLAGS", "-Awarnings").env("CARGO_NET_OFFLINE", "true");
    let o = match cmd.stdin(Stdio::null()).output() {
        Ok(o) => o,
        Err(e) => return c.inconclusive(format!("{tool} could not be started: {e}")),
    };
    let (out, err) = (String::from_utf8_lossy(&o.stdout).to_string(), String::from_utf8_lossy(&o.stderr).to_string());
    let at = out.lines().rev().find(|l| l.starts_with("CASE ")).unwrap_or("before the first case").to_string();
    let done: Option<BTreeMap<String, u64>> = out.lines().find_map(|l| l.strip_prefix("DONE ")).map(|l| l.split(' ').filter_map(|x| x.split_once('=')).map(|(k, v)| (k.to_string(), v.parse().unwrap_or(0))).collect());
    let grep = |pats: &[&str]| err.lines().find(|l| pats.iter().any(|p| l.contains(p))).map(|l| l.trim().to_string());
    let code = o.status.code();
    let detail = |first: String| format!("{tool} on `{range}` at {at}: {first}\n{}", err.lines().take(120).collect::<Vec<_>>().join("\n"));
    if let Some(l) = grep(&["stack-overflow", "has overflowed its stack"]) {
        // endless recursion is a matter of other properties
        c.log(l);
        c.count("stack-overflow");
        return;
    }
    let bad = if tool == "miri" { grep(&["Undefined Behavior", "memory leaked", "unsafe precondition", "abnormal termination"]) } else { grep(&["ERROR: AddressSanitizer", "ERROR: LeakSanitizer", "unsafe precondition", "double free", "free():", "malloc"]) };
    if let Some(l) = bad {
        let kind: String = ["Undefined Behavior", "memory leaked", "unsafe precondition", "LeakSanitizer"].iter().find(|k| l.contains(**k)).map(|k| k.to_lowercase().replace(' ', "-")).unwrap_or("memory-error".into());
        return c.fail(&format!("{tool}:{kind}"), detail(l));
    }
    use std::os::unix::process::ExitStatusExt;
    let sig = o.status.signal().or(code.filter(|c| *c > 128 && *c < 160).map(|c| c - 128));
    match (sig, code, &done) {
        (Some(4 | 6 | 7 | 8 | 11), ..) => c.fail(&format!("{tool}:crash"), detail(format!("the process died by signal {}", sig.unwrap()))),
        (_, Some(0), Some(d)) => {
            c.add(&format!("{tool}-cases"), d["cases"]);
            c.add(&format!("{tool}-monitor-evaluations"), d["monitors"]);
            c.add(&format!("{tool}-notes"), d["notes"]);
            c.check(true, "", String::new);
            c.fingerprint(vmon::fnv(out.as_bytes()));
            c.state(vmon::fnv(range.as_bytes()));
            c.nontrivial();
        }
        // out of time or memory, or a harness problem
        _ => c.inconclusive(format!("{tool} on `{range}` ended with {:?} at {at}: {}", o.status, err.lines().last().unwrap_or(""))),
    }
}

/// Workloads of other properties that are cheap enough for the interpreter: cases per run.
const MIRI: &[(&str, &str, u64)] = &[("C07", "mut", 1), ("C07", "tour", 7), ("C03", "container", 2), ("C07", "tour", 7), ("C08", "container", 1), ("C07", "tour", 7), ("C23", "points", 10), ("C07", "tour", 7)];

fn miri(c: &mut Case) {
    let k = c.index as usize % MIRI.len();
    let (p, w, n) = MIRI[k];
    // the number of earlier runs of the same workload
    let before = (0..c.index as usize).filter(|i| MIRI[i % MIRI.len()].0 == p && MIRI[i % MIRI.len()].1 == w).count() as u64;
    c.phase("miri");
    run_tool(c, "miri", p, w, before * n, n);
}

fn asan(c: &mut Case) {
    let all: Vec<(String, String, u64)> = crate::all()
        .iter()
        .flat_map(|p| p.workloads.iter().filter(|w| !["miri", "asan"].contains(&w.name)).map(|w| (p.id.to_string(), w.name.to_string(), w.quick / 150 + 2)).collect::<Vec<_>>())
        .collect();
    c.max("workloads", all.len() as u64);
    let (k, round) = (c.index % all.len() as u64, c.index / all.len() as u64);
    let (p, w, n) = &all[k as usize];
    c.phase("asan");
    run_tool(c, "asan", p, w, round * n, *n);
}

pub fn props() -> Vec<Property> {
    vec![Property {
        id: "C07",
        workloads: vec![w("mut", 6000, 200000, muts), w("tour", 1400, 28000, tour), w("miri", 16, 320, miri), w("asan", 48, 480, asan)],
        floors: vec![("references", 100000), ("cycles", 30000), ("partial", 10000), ("rho-ended", 500), ("rewired-ended", 1000), ("miri-cases", 60), ("asan-cases", 10000), ("asan-monitor-evaluations", 1000000)],
        rule: "A case is a mesh from a random history whose elements are all borrowed mutably at once and written in random order; or a range of cases of a workload of any property that is executed by the Miri interpreter or by a build with the address sanitizer. Non-trivial: references were judged, or the tool reached the end of the range.",
        assumptions: vec!["Miri's stacked borrows model; the dependencies are judged as far as they are executed"],
    }]
}
