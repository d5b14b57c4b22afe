//! C34: the triangle list of a triangulation: what it reports, flipping, and the self-checks.

use crate::gen;
use crate::geo::*;
use procedural_modelling::extensions::nalgebra::*;
use procedural_modelling::prelude::*;
use std::collections::{BTreeMap, HashMap};
use vmon::{w, Case, Property, Rng};

type Ix = IndexedVertex2D<usize, Vec2<f64>>;

/// A random triangulation by cutting exactly tested ears.
fn reference(r: &mut Rng, p: &[P2]) -> Option<Vec<[usize; 3]>> {
    let mut rest: Vec<usize> = (0..p.len()).collect();
    let mut t = vec![];
    while rest.len() > 3 {
        let n = rest.len();
        let s = r.below(n);
        let k = (0..n).map(|k| (k + s) % n).find(|k| {
            let (a, b, c) = (rest[(k + n - 1) % n], rest[*k], rest[(k + 1) % n]);
            orient(p[a], p[b], p[c]) > 0
                && rest.iter().all(|v| *v == a || *v == b || *v == c || orient(p[a], p[b], p[*v]) < 0 || orient(p[b], p[c], p[*v]) < 0 || orient(p[c], p[a], p[*v]) < 0)
        })?;
        t.push([rest[(k + n - 1) % n], rest[k], rest[(k + 1) % n]]);
        rest.remove(k);
    }
    if orient(p[rest[0]], p[rest[1]], p[rest[2]]) <= 0 {
        return None;
    }
    t.push([rest[0], rest[1], rest[2]]);
    for t in &mut t {
        t.rotate_left(r.below(3));
    }
    r.shuffle(&mut t);
    Some(t)
}

struct Scene {
    p: Vec<P2>,
    tris: Vec<[usize; 3]>,
    /// the index of each corner
    ids: Vec<usize>,
    vs: Vec<Ix>,
    hm: HashMap<usize, Vec2<f64>>,
    prefix: Vec<usize>,
}
impl Scene {
    fn new(c: &mut Case, min: usize) -> Option<Scene> {
        c.phase("setup");
        let max = *c.rng.pick(&[6, 9, 14]);
        let max = c.rng.rare(max, 80);
        let mut p = gen::polygon(&mut c.rng, max).p;
        if c.rng.chance(0.08) {
            // almost collinear corners with large coordinates: the areas of slivers are rounding errors
            let k = c.rng.logf(1e2, 1e6);
            p = gen::stairs(&mut c.rng, max).iter().map(|q| [q[0] * k, q[1] * k]).collect();
            c.count("slivers");
        }
        if p.len() < min {
            return None;
        }
        let tris = reference(&mut c.rng, &p)?;
        let mut ids: Vec<usize> = (0..p.len()).collect();
        if c.rng.chance(0.7) {
            ids = ids.iter().map(|i| i * 7 + 3).collect();
            c.rng.shuffle(&mut ids);
        }
        let vs: Vec<Ix> = p.iter().zip(&ids).map(|(q, i)| IndexedVertex2D::new(Vec2::new(q[0], q[1]), *i)).collect();
        let hm = vs.iter().map(|v| (v.index, v.vec)).collect();
        let k = if c.rng.chance(0.3) { 0 } else { c.rng.below(8) };
        let k = c.rng.rare(k, 1000);
        let junk = [usize::MAX, 0, 3, 77777, 10];
        let prefix = (0..k).map(|_| *c.rng.pick(&junk)).collect();
        c.log(format!("{p:?} ids {ids:?} prefix {prefix:?} triangles {tris:?}"));
        Some(Scene { p, tris, ids, vs, hm, prefix })
    }
    fn ix(&self, t: &[usize; 3]) -> [usize; 3] {
        t.map(|k| self.ids[k])
    }
    fn buffer(&self, tris: &[[usize; 3]]) -> Vec<usize> {
        tris.iter().flat_map(|t| self.ix(t)).collect()
    }
}

fn contents(c: &mut Case) {
    let Some(s) = Scene::new(c, 3) else {
        c.count("skipped");
        return;
    };
    let mut buf = s.prefix.clone();
    let start = buf.len();
    let mut model: Vec<[usize; 3]> = vec![];
    let mut tri = Triangulation::new(&mut buf);
    c.phase("contents");
    for t in &s.tris {
        let i = s.ix(t);
        if c.rng.chance(0.5) {
            tri.insert_triangle(i[0], i[1], i[2]);
        } else {
            tri.insert_triangle_local(t[0], t[1], t[2], &s.vs);
        }
        model.push(i);
        c.check(tri.len() == model.len(), "len", || format!("{} triangles after {} were added", tri.len(), model.len()));
        c.check(tri.next_pos() == start + 3 * model.len(), "next-pos", || format!("the next position is {} after {start} indices and {} triangles", tri.next_pos(), model.len()));
    }
    let same = |c: &mut Case, tri: &Triangulation<usize>, model: &[[usize; 3]], what: &str| {
        for (i, m) in model.iter().enumerate() {
            let (x, y, z) = tri.get_triangle(i);
            c.check([x, y, z] == *m, &format!("triangle:{what}"), || format!("triangle {i} is {:?} instead of {m:?}", (x, y, z)));
            for k in 0..3 {
                c.check(tri.get_index(3 * i + k) == m[k], &format!("index:{what}"), || format!("index {} is {} instead of {}", 3 * i + k, tri.get_index(3 * i + k), m[k]));
            }
        }
        let want: Vec<String> = model.iter().map(|m| format!("{} {} {}", m[0], m[1], m[2])).collect();
        let got = format!("{tri:?}");
        c.check(got.lines().skip(1).eq(want.iter().map(|s| s.as_str())), "debug", || format!("printed as {got}"));
    };
    same(c, &tri, &model, "inserted");
    // measures
    c.phase("measures");
    let d = diameter(&s.p).max(magnitude(&s.p));
    let mut total = 0.0;
    let mut area = 0.0;
    for (i, t) in s.tris.iter().enumerate() {
        let (a, b, e) = (s.p[t[0]], s.p[t[1]], s.p[t[2]]);
        let want = orient_ex(a, b, e).est();
        let got = tri.get_triangle_area(i, &s.hm);
        c.check((got - want).abs() <= 1e-13 * d * d, "triangle-area", || format!("the determinant of triangle {t:?} is {want}, reported {got}"));
        total += d2(a, b) + d2(b, e) + d2(e, a);
        area += want / 2.0;
    }
    let got = tri.get_area(&s.hm);
    c.check((got - area).abs() <= 1e-12 * d * d, "area", || format!("the area is {area}, reported {got}"));
    let got = tri.total_edge_weight(&s.hm);
    c.check((got - total).abs() <= 1e-12 * d * s.tris.len() as f64, "weight", || format!("the sides have the lengths {total} in total, reported {got}"));
    // clockwise triangles count positively in the total area
    if c.rng.chance(0.5) {
        let k = c.rng.below(s.tris.len());
        let mut t2 = s.tris.clone();
        t2[k].swap(0, 1);
        let mut b2 = s.buffer(&t2);
        let mut tri2 = Triangulation::new(&mut b2);
        c.check(tri2.len() == 0, "old", || "triangles that were in the buffer before are counted".into());
        for t in &t2 {
            let i = s.ix(t);
            tri2.insert_triangle(i[0], i[1], i[2]);
        }
        let got = tri2.get_area(&s.hm);
        c.check((got - area).abs() <= 1e-12 * d * d, "area-abs", || format!("the total of the areas is {area}, reported {got}"));
    }
    // renaming
    c.phase("rename");
    let mut to: Vec<usize> = (0..s.p.len()).map(|i| 1000 + i).collect();
    c.rng.shuffle(&mut to);
    let map: HashMap<usize, usize> = s.ids.iter().copied().zip(to).collect();
    tri.map_indices(&map);
    for t in &mut model {
        *t = t.map(|i| map[&i]);
    }
    same(c, &tri, &model, "renamed");
    let want: Vec<usize> = s.prefix.iter().copied().chain(model.iter().flatten().copied()).collect();
    c.check(buf == want, "buffer", || format!("the buffer is {buf:?} instead of {want:?}"));
    let v = IndexedVertex2D::<usize, _>::from_vector(s.vs.iter().map(|v| v.vec).collect());
    c.check(v.iter().enumerate().all(|(i, v)| v.index == i && v.vec == s.vs[i].vec) && v.len() == s.vs.len(), "from-vector", || format!("{v:?}"));
    c.count("contents");
    c.state(vmon::fnv(format!("{:?}", s.tris).as_bytes()));
    c.nontrivial();
}

fn cyc(t: [usize; 3]) -> [usize; 3] {
    let k = (0..3).min_by_key(|k| t[*k]).unwrap();
    [t[k], t[(k + 1) % 3], t[(k + 2) % 3]]
}

fn flips(c: &mut Case) {
    let Some(s) = Scene::new(c, 4) else {
        c.count("skipped");
        return;
    };
    let mut buf = s.prefix.clone();
    let start = buf.len();
    let mut model: Vec<[usize; 3]> = s.tris.iter().map(|t| s.ix(t)).collect();
    let steps = c.rng.int(1, 12);
    let mut tri = Triangulation::new(&mut buf);
    for t in &model {
        tri.insert_triangle(t[0], t[1], t[2]);
    }
    for _ in 0..steps {
        let mut owner: BTreeMap<(usize, usize), usize> = BTreeMap::new();
        for (i, t) in model.iter().enumerate() {
            for k in 0..3 {
                owner.insert((t[k], t[(k + 1) % 3]), i);
            }
        }
        let shared: Vec<(usize, usize)> = owner.keys().copied().filter(|(a, b)| owner.contains_key(&(*b, *a))).collect();
        let i = c.rng.below(model.len());
        if c.rng.chance(0.25) {
            // not the shared edge of the two triangles
            let j = c.rng.below(model.len());
            let (a, b) = (*c.rng.pick(&s.ids), *c.rng.pick(&s.ids));
            if owner.get(&(a, b)) == Some(&i) && owner.get(&(b, a)) == Some(&j) {
                continue;
            }
            c.phase("refuse");
            let r = tri.flip_edge(a, b, start + 3 * i, start + 3 * j);
            c.log(format!("flip {a}-{b} of {i} {j}: {r:?}"));
            c.check(r.is_err(), "flip-accepted", || format!("{a}-{b} is not the common edge of {:?} and {:?}, but was flipped", model[i], model[j]));
            c.count("refused");
        } else {
            let (a, b) = *c.rng.pick(&shared);
            let (i, j) = (owner[&(a, b)], owner[&(b, a)]);
            let third = |t: [usize; 3]| t.into_iter().find(|v| *v != a && *v != b).unwrap();
            let (x, y) = (third(model[i]), third(model[j]));
            if x == y || owner.contains_key(&(x, y)) || owner.contains_key(&(y, x)) {
                continue;
            }
            c.phase("flip");
            let r = tri.flip_edge(a, b, start + 3 * i, start + 3 * j);
            c.log(format!("flip {a}-{b} of {i} {j}: {r:?}"));
            c.check(r.is_ok(), "flip-refused", || format!("the common edge {a}-{b} of {:?} and {:?} was not flipped", model[i], model[j]));
            let got = |k: usize| {
                let t = tri.get_triangle(k);
                cyc([t.0, t.1, t.2])
            };
            let mut g = [got(i), got(j)];
            g.sort();
            let mut want = [cyc([a, y, x]), cyc([y, b, x])];
            want.sort();
            c.check(g == want, "flip", || format!("flipping {a}-{b} of {:?} and {:?} gave {g:?} instead of {want:?}", model[i], model[j]));
            for k in [i, j] {
                let t = tri.get_triangle(k);
                model[k] = [t.0, t.1, t.2];
            }
            c.count("flips");
        }
        c.check(tri.len() == model.len(), "flip-len", || format!("{} triangles", tri.len()));
        for (k, m) in model.iter().enumerate() {
            let t = tri.get_triangle(k);
            c.check([t.0, t.1, t.2] == *m, "flip-others", || format!("triangle {k} became {t:?} instead of {m:?}"));
        }
        c.state(vmon::fnv(format!("{model:?}").as_bytes()));
    }
    c.check(buf[..start] == s.prefix[..], "flip-prefix", || format!("the indices in front of the triangulation became {:?}", &buf[..start]));
    c.nontrivial();
}

const PARTS: [&str; 6] = ["indices", "used", "crossings", "orientation", "area", "full"];

/// What the self-checks say: true for accepted.
fn verdicts(c: &mut Case, s: &Scene, tris: &[usize]) -> [bool; 6] {
    let mut r = [true; 6];
    for (k, r) in r.iter_mut().enumerate() {
        let mut buf = s.prefix.clone();
        let mut tri = Triangulation::new(&mut buf);
        for t in tris.chunks(3) {
            tri.insert_triangle(t[0], t[1], t[2]);
        }
        *r = c
            .expect_panic(|| match k {
                0 => tri.verify_indices(&s.hm),
                1 => tri.verify_all_indices_used(&s.vs),
                2 => tri.verify_no_intersections(&s.hm),
                3 => tri.verify_non_degenerate_triangle(&s.hm),
                4 => tri.verify_area::<Vec2<f64>, Polygon2d<f64>>(&s.vs, &s.hm),
                _ => tri.verify_full::<Vec2<f64>, Polygon2d<f64>>(&s.vs),
            })
            .is_some();
    }
    r
}

fn selfcheck(c: &mut Case) {
    let Some(s) = Scene::new(c, 4) else {
        c.count("skipped");
        return;
    };
    c.phase("accept");
    let good = s.buffer(&s.tris);
    let v = verdicts(c, &s, &good);
    for k in 0..6 {
        c.check(v[k], &format!("rejected:{}", PARTS[k]), || format!("the check `{}` rejects a correct triangulation", PARTS[k]));
    }
    c.count("accepted");
    // break it
    let d = diameter(&s.p).max(1e-300);
    let n = s.tris.len();
    let area = |t: &[usize; 3]| orient_ex(s.p[t[0]], s.p[t[1]], s.p[t[2]]).est() / 2.0;
    let used = |t: &[[usize; 3]]| t.iter().flatten().copied().collect::<std::collections::BTreeSet<usize>>().len() == s.p.len();
    let mut bad = good.clone();
    let i = c.rng.below(n);
    let j = (i + c.rng.int(1, n.max(2) - 1)) % n;
    // the checks which must reject it, and those which must not
    let (what, reject, accept): (&str, Vec<usize>, Vec<usize>) = match c.rng.below(7) {
        0 => {
            bad.drain(3 * i..3 * i + 3);
            let mut rest = s.tris.clone();
            rest.remove(i);
            let u = used(&rest);
            let mut r = vec![0];
            if !u {
                r.push(1);
            }
            if area(&s.tris[i]) > 1e-4 * d * d {
                r.push(4);
            }
            ("missing", r, if u { vec![1, 2, 3] } else { vec![2, 3] })
        }
        1 => {
            bad.extend(s.ix(&s.tris[i]));
            let r = if area(&s.tris[i]) > 1e-4 * d * d { vec![0, 4] } else { vec![0] };
            ("extra", r, vec![1, 2, 3])
        }
        2 => {
            // an index that does not belong to the polygon
            let k = c.rng.below(bad.len());
            bad[k] = 5_000_000;
            ("foreign", vec![0, 1], vec![])
        }
        3 => {
            if i == j {
                return;
            }
            let mut t = s.tris.clone();
            t[i] = t[j];
            bad = s.buffer(&t);
            let mut r = vec![];
            let mut a = vec![0, 2, 3];
            if used(&t) {
                a.push(1);
            } else {
                r.push(1);
            }
            if (area(&s.tris[i]) - area(&s.tris[j])).abs() > 1e-4 * d * d {
                r.push(4);
            }
            if r.is_empty() {
                return;
            }
            ("repeated", r, a)
        }
        4 => {
            if area(&s.tris[i]) < 1e-4 * d * d || d * d < 1e-3 {
                return;
            }
            bad.swap(3 * i, 3 * i + 1);
            ("clockwise", vec![3], vec![0, 1, 2, 4])
        }
        5 => {
            // one of two adjacent triangles with the other diagonal of their quadrilateral
            let t = s.tris[i];
            let k = c.rng.below(3);
            let (a, b, e) = (t[k], t[(k + 1) % 3], t[(k + 2) % 3]);
            let Some((o, f)) = s.tris.iter().enumerate().find_map(|(o, u)| (0..3).find(|k| u[*k] == b && u[(k + 1) % 3] == a).map(|k| (o, u[(k + 2) % 3]))) else { return };
            // a-b is the diagonal, e and f the tips
            let m = [area(&[a, f, e]), area(&[f, b, e]), area(&[a, b, e]), area(&[b, a, f])];
            if m.iter().any(|x| *x < 1e-2 * d * d) || d * d < 1e-3 || d > 1e3 {
                return;
            }
            let mut t = s.tris.clone();
            t[o] = [a, f, e];
            bad = s.buffer(&t);
            let mut r = vec![2];
            let ar = m[0] - m[3];
            if ar.abs() > 1e-4 * d * d {
                r.push(4);
            }
            ("crossing", r, if used(&t) { vec![0, 1, 3] } else { vec![0, 3] })
        }
        _ => {
            // fan over a reflex corner, a triangulation of something else
            let k = c.rng.below(s.p.len());
            let m = s.p.len();
            let t: Vec<[usize; 3]> = (1..m - 1).map(|i| [k, (k + i) % m, (k + i + 1) % m]).collect();
            let worst = t.iter().map(area).fold(f64::INFINITY, f64::min);
            if worst > -1e-3 * d * d || d * d < 1e-3 {
                return;
            }
            bad = s.buffer(&t);
            let total: f64 = t.iter().map(|t| area(t).abs()).sum();
            let want = area2(&s.p) / 2.0;
            let mut r = vec![3];
            if (total - want).abs() > 1e-4 * d * d {
                r.push(4);
            }
            ("fan", r, vec![0, 1])
        }
    };
    c.log(format!("{what}: {bad:?}"));
    c.phase("reject");
    let v = verdicts(c, &s, &bad);
    for k in reject.into_iter().chain([5]) {
        c.check(!v[k], &format!("accepted:{}:{what}", PARTS[k]), || format!("the check `{}` accepts the broken triangulation {bad:?}", PARTS[k]));
    }
    for k in accept {
        c.check(v[k], &format!("too-strict:{}:{what}", PARTS[k]), || format!("the check `{}` rejects {bad:?}, which breaks something else only", PARTS[k]));
    }
    c.count(&format!("broken:{what}"));
    c.state(vmon::fnv(format!("{bad:?}").as_bytes()));
    c.nontrivial();
}

pub fn props() -> Vec<Property> {
    vec![Property {
        id: "C34",
        workloads: vec![w("contents", 80000, 640000, contents), w("flips", 80000, 640000, flips), w("selfcheck", 160000, 1280000, selfcheck)],
        floors: vec![
            ("slivers", 4000),
            ("contents", 5000),
            ("flips", 10000),
            ("refused", 3000),
            ("accepted", 10000),
            ("broken:missing", 500),
            ("broken:extra", 500),
            ("broken:foreign", 500),
            ("broken:repeated", 500),
            ("broken:clockwise", 500),
            ("broken:crossing", 200),
            ("broken:fan", 200),
        ],
        rule: "A case generates a simple polygon with arbitrary indices, triangulates it by an independent exact ear cutter, and fills a triangulation behind other indices; it compares contents and measures, flips edges, or damages the triangulation in one of seven ways and compares the verdict of every self-check with the damage. Non-trivial: something was compared.",
        assumptions: vec!["damage is judged only where it exceeds the tolerances of the self-checks by a wide margin (areas by 1e-4, crossings by 1e-2 of the squared diameter)"],
    }]
}
