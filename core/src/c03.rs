//! C03 slot container, C08 index capacity.

use crate::machine::*;
use crate::snap::*;
use crate::types::*;
use procedural_modelling::prelude::*;
use std::collections::{BTreeMap, BTreeSet};
use vmon::{w, Case, Property};

#[derive(Clone, Debug)]
struct El<I> {
    id: Option<I>,
    val: u64,
}
impl<I: IndexType> Deletable<I> for El<I> {
    fn is_deleted(&self) -> bool {
        self.id.is_none()
    }
    fn delete(&mut self) {
        self.id = None;
    }
    fn set_id(&mut self, id: I) {
        self.id = Some(id);
    }
    fn allocate() -> Self {
        El { id: None, val: u64::MAX }
    }
}

fn container<I: IndexType>(c: &mut Case, steps: usize, cap: usize) {
    let steps = if cfg!(miri) { steps.min(30) } else { steps };
    let mut d: DeletableVector<El<I>, I> = DeletableVector::new();
    let mut live: BTreeMap<usize, u64> = BTreeMap::new();
    let mut reserved: BTreeSet<usize> = BTreeSet::new();
    let mut slots = 0usize; // highest number of slots ever needed since the last clear
    let mut tag = 0u64;
    let grow = c.rng.f(0.2, 0.8);
    for _ in 0..steps {
        let el = |tag: &mut u64| {
            *tag += 1;
            El { id: None, val: *tag }
        };
        let full = live.len() + reserved.len() >= cap;
        let k = if c.rng.chance(grow) { c.rng.below(4) } else { 4 + c.rng.below(7) };
        match k {
            0 | 1 if !full => {
                c.phase("push");
                let e = el(&mut tag);
                let v = e.val;
                let id = d.push(e).index();
                c.log(format!("push(#{v}) -> {id}"));
                c.check(!live.contains_key(&id) && !reserved.contains(&id), "alias:push", || format!("push returned id {id} which is in use"));
                let free = slots - live.len() - reserved.len();
                if free > 0 {
                    c.count("reused");
                    c.check(id < slots, "no-reuse:push", || format!("push returned the new slot {id} although there are {free} free slots"));
                } else {
                    c.check(id == slots, "gap:push", || format!("push returned id {id} but {slots} slots are in use"));
                    slots += 1;
                }
                live.insert(id, v);
            }
            2 if !full => {
                c.phase("allocate");
                let id = d.allocate().index();
                c.log(format!("allocate() -> {id}"));
                c.check(!live.contains_key(&id) && !reserved.contains(&id), "alias:allocate", || format!("allocate returned id {id} which is in use"));
                let free = slots - live.len() - reserved.len();
                if free > 0 {
                    c.count("reused");
                    c.check(id < slots, "no-reuse:allocate", || format!("allocate returned the new slot {id} although there are {free} free slots"));
                } else {
                    c.check(id == slots, "gap:allocate", || format!("allocate returned id {id} but {slots} slots are in use"));
                    slots += 1;
                }
                reserved.insert(id);
            }
            3 => {
                if let Some(&id) = reserved.iter().nth(c.rng.below(reserved.len().max(1))) {
                    c.phase("set");
                    let e = el(&mut tag);
                    c.log(format!("set({id}, #{})", e.val));
                    live.insert(id, e.val);
                    reserved.remove(&id);
                    d.set(I::new(id), e);
                    c.count("set");
                }
            }
            4 | 5 => {
                if !live.is_empty() {
                    c.phase("delete");
                    let id = *live.keys().nth(c.rng.below(live.len())).unwrap();
                    c.log(format!("delete({id})"));
                    d.delete_internal(I::new(id));
                    live.remove(&id);
                    c.count("deleted");
                }
            }
            6 => {
                if !live.is_empty() {
                    c.phase("get_mut");
                    let id = *live.keys().nth(c.rng.below(live.len())).unwrap();
                    tag += 1;
                    d.get_mut(I::new(id)).val = tag;
                    c.log(format!("get_mut({id}) = #{tag}"));
                    live.insert(id, tag);
                }
            }
            7 => {
                c.phase("iter_mut");
                if c.rng.chance(0.2) {
                    for e in d.iter_mut() {
                        e.val += 1 << 32;
                    }
                    for v in live.values_mut() {
                        *v += 1 << 32;
                    }
                    c.log("iter_mut");
                }
            }
            8 => {
                // refused accesses
                let dead: Vec<usize> = (0..slots).filter(|i| !live.contains_key(i)).collect();
                if !dead.is_empty() {
                    let id = *c.rng.pick(&dead);
                    c.phase("refused access");
                    let r = c.expect_panic(|| d.get(I::new(id)).val);
                    c.check(r.is_none(), "refuse:get", || format!("get({id}) of a deleted element returned a value"));
                    let mut d2 = d.clone();
                    let r = c.expect_panic(|| d2.get_mut(I::new(id)).val);
                    c.check(r.is_none(), "refuse:get_mut", || format!("get_mut({id}) of a deleted element returned a value"));
                }
                if let Some(&id) = live.keys().next() {
                    let mut d2 = d.clone();
                    let e = el(&mut tag);
                    let r = c.expect_panic(|| d2.set(I::new(id), e));
                    c.check(r.is_none(), "refuse:set", || format!("set({id}) overwrote a live element"));
                    let mut d2 = d.clone();
                    let e = El { id: Some(I::new(0)), val: 1 };
                    let r = c.expect_panic(|| d2.push(e));
                    c.check(r.is_none(), "refuse:push", || "push accepted an element that already has an id".into());
                }
                if slots < cap {
                    let r = c.expect_panic(|| d.get(I::new(slots)).val);
                    c.check(r.is_none(), "refuse:get", || "get() beyond the end returned a value".to_string());
                }
                c.count("refused");
            }
            9 => {
                if c.rng.chance(0.03) {
                    c.phase("clear");
                    d.clear();
                    live.clear();
                    reserved.clear();
                    slots = 0;
                    c.log("clear");
                    c.count("clear");
                }
            }
            _ => {
                c.phase("clone");
                if c.rng.chance(0.1) {
                    d = d.clone();
                }
            }
        }
        c.phase("observe");
        c.check(d.len() == live.len() + reserved.len(), "len", || format!("len() = {} but {} elements are live and {} reserved", d.len(), live.len(), reserved.len()));
        c.check(d.capacity() == slots, "capacity", || format!("capacity() = {} instead of {slots}", d.capacity()));
        let it: Vec<(usize, u64)> = d.iter().map(|e| (e.id.unwrap().index(), e.val)).collect();
        let exp: Vec<(usize, u64)> = live.iter().map(|x| (*x.0, *x.1)).collect();
        c.check(it == exp, "iter", || format!("iteration yields {it:?} instead of {exp:?}"));
        for i in 0..slots + 1 {
            if i <= <I as IndexType>::max().index() {
                c.check(d.has(I::new(i)) == live.contains_key(&i), "has", || format!("has({i}) is wrong"));
            }
        }
        for (i, v) in &live {
            let g = d.get(I::new(*i));
            c.check(g.val == *v && g.id == Some(I::new(*i)), "get", || format!("get({i}) = {g:?} instead of #{v}"));
        }
        let mut h = 0;
        for i in 0..slots {
            h = vmon::mix(h, live.contains_key(&i) as u64 + 2 * reserved.contains(&i) as u64);
        }
        c.state(h);
    }
    if slots > 2 {
        c.nontrivial();
    }
}

fn c03(c: &mut Case) {
    let steps = if c.thorough { c.rng.int(20, 600) } else { c.rng.int(20, 200) };
    let cap = *c.rng.pick(&[3usize, 8, 20, 60]);
    match c.rng.below(4) {
        0 => container::<u8>(c, steps, cap),
        1 => container::<u16>(c, steps, cap),
        2 => container::<u32>(c, steps, cap),
        _ => container::<usize>(c, steps, cap),
    }
}

// --------------------------------------------------------------------------------------------- C08

/// The container at its limit.
fn c08_container(c: &mut Case) {
    fn go<I: IndexType>(c: &mut Case) {
        let max = <I as IndexType>::max().index();
        let mut d: DeletableVector<El<I>, I> = DeletableVector::new();
        let mut ids = BTreeSet::new();
        c.phase("fill");
        for k in 0..max {
            let id = if c.rng.chance(0.5) {
                d.push(El { id: None, val: k as u64 })
            } else {
                let id = d.allocate();
                d.set(id, El { id: None, val: k as u64 });
                id
            };
            c.check(id != <I as IndexType>::max() && ids.insert(id.index()), "alias", || format!("element {k} got id {id}"));
        }
        c.phase("full");
        let over = |c: &mut Case, d: &DeletableVector<El<I>, I>| {
            let mut d2 = d.clone();
            let r = c.expect_panic(|| d2.push(El { id: None, val: 0 }));
            c.check(r.is_none(), "overflow:push", || format!("pushing element number {} returned id {}", max + 1, r.unwrap()));
            let mut d2 = d.clone();
            let r = c.expect_panic(|| d2.allocate());
            c.check(r.is_none(), "overflow:allocate", || format!("allocating element number {} returned id {}", max + 1, r.unwrap()));
            c.check(d2.len() == max, "overflow:len", || format!("len() = {} after the refused allocation", d2.len()));
        };
        over(c, &d);
        c.check(d.len() == max && d.iter().count() == max, "full:len", || format!("{} elements, {} iterated", d.len(), d.iter().count()));
        for _ in 0..c.rng.int(1, 20) {
            // deleting makes room for exactly as many
            let k = c.rng.int(1, 5);
            let mut gone = BTreeSet::new();
            while gone.len() < k {
                let i = c.rng.below(max);
                if gone.insert(i) {
                    d.delete_internal(I::new(i));
                }
            }
            for _ in 0..k {
                let id = d.push(El { id: None, val: 1 }).index();
                c.check(gone.remove(&id), "alias", || format!("id {id} is in use"));
            }
            c.count("refilled");
        }
        over(c, &d);
        c.count("capacity-reached");
        c.fingerprint(vmon::mix(max as u64, d.iter().map(|e| e.val).sum()));
        c.nontrivial();
    }
    if c.index % 8 == 7 {
        go::<u16>(c)
    } else {
        go::<u8>(c)
    }
}

/// Meshes with small indices behave like meshes with large ones until they panic at the limit.
fn c08_mesh(c: &mut Case) {
    fn go<T: Tagged>(c: &mut Case, vmax: usize, emax: usize, fmax: usize) {
        let steps = c.rng.int(60, if c.thorough { 500 } else { 250 });
        let limit = *c.rng.pick(&[12usize, 60, 400, 400]);
        let start = c.rng.clone();
        // reference with large indices; records the largest ids in use
        let mut big = Machine::<TT<usize, usize, usize>>::new(limit, false);
        let mut states = vec![];
        big.history_with(c, steps, ALL, |m| {
            let l = |k: Option<usize>| k.map(|x| x + 1).unwrap_or(0);
            states.push((m.a.clone(), l(m.a.s.v.keys().last().copied()), l(m.a.s.e.keys().last().copied()), l(m.a.s.f.keys().last().copied())));
        });
        c.rng = start;
        let mut k = 0;
        let mut small = Machine::<T>::new(limit, false);
        let st = &states;
        let r = c.may_panic(|c| {
            small.history_with(c, steps, ALL, |m| {
                assert!(k < st.len(), "the histories have different lengths");
                if st[k].0 != m.a && k < st.len() {
                    panic!("DIVERGED");
                }
                k += 1;
            })
        });
        let fits = |s: &(Model, usize, usize, usize)| s.1 <= vmax && s.2 <= emax && s.3 <= fmax;
        // freed slots may lie between the live ones; only live ids are visible, which suffices since
        // vertices and edges are never removed and faces are reused
        let first = states.iter().position(|s| !fits(s)).unwrap_or(states.len());
        match r {
            Ok(_) => {
                c.check(first == states.len(), "overflow:mesh", || format!("step {first} needs more ids than there are ({:?}) but did not panic", (states[first].1, states[first].2, states[first].3)));
                c.count("fits");
            }
            Err(msg) => {
                c.check(!msg.contains("DIVERGED"), "diverged", || format!("the mesh with small indices differs from the reference after step {k}"));
                c.check(k >= first, "early-panic", || format!("step {k} panicked although all ids fit: {msg}"));
                c.count("refused");
            }
        }
        c.max("max-id", states.iter().map(|s| s.1.max(s.2).max(s.3)).max().unwrap_or(0) as u64);
        if states.len() > 20 {
            c.nontrivial();
        }
    }
    let m = 255;
    let n = usize::MAX;
    match c.rng.below(4) {
        0 => go::<TT<u8, u8, u8>>(c, m, m, m),
        1 => go::<TT<u8, u16, u32>>(c, n, m, n),
        2 => go::<TT<u32, u8, u16>>(c, m, n, n),
        _ => go::<TT<u16, u32, u8>>(c, n, n, m),
    }
}

/// Runs each element kind into its limit.
fn c08_exhaust(c: &mut Case) {
    c.phase("exhaust");
    match c.index % 4 {
        0 => {
            let mut m = HalfEdgeMeshImpl::<TT<usize, u8, usize>>::new();
            for k in 0..255u64 {
                let id = m.add_vertex(Pay(k));
                c.check(id as u64 == k, "alias", || format!("vertex {k} got id {id}"));
            }
            let r = c.expect_panic(|| m.add_vertex(Pay(1)));
            c.check(r.is_none(), "overflow:add_vertex", || format!("the 256th vertex got id {}", r.unwrap()));
            let s = monitor(c, &m, "full").0;
            c.check(s.v.len() == 255, "full", || "vertices are missing".into());
        }
        1 => {
            let mut m = HalfEdgeMeshImpl::<TT<u8, usize, usize>>::new();
            let n = c.rng.int(2, 6);
            let mut total = 0;
            while total + 2 * n <= 254 {
                m.insert_path((0..n + 1).map(|k| Pay(k as u64)));
                total += 2 * n;
            }
            monitor(c, &m, "full");
            let k = (256 - total) / 2;
            let r = c.expect_panic(|| m.insert_path((0..k + 2).map(|k| Pay(k as u64))));
            c.check(r.is_none(), "overflow:path", || format!("created more than 254 half-edges: {}", m.num_edges()));
        }
        2 => {
            let mut m = HalfEdgeMeshImpl::<TT<usize, usize, u8>>::new();
            for k in 0..255u64 {
                let e = m.insert_loop((0..3).map(Pay));
                let f = m.close_hole(e, Pay(k), false);
                c.check(f as u64 == k, "alias", || format!("face {k} got id {f}"));
            }
            let e = m.insert_loop((0..3).map(Pay));
            let mut m2 = m.clone();
            let r = c.expect_panic(|| m2.close_hole(e, Pay(0), false));
            c.check(r.is_none(), "overflow:close_hole", || format!("the 256th face got id {}", r.unwrap()));
            let gone = c.rng.below(255) as u8;
            m.remove_face(gone);
            let f = m.close_hole(e, Pay(7), false);
            c.check(f == gone, "alias", || format!("the only free face id is {gone} but the new face got {f}"));
            let s = monitor(c, &m, "full").0;
            c.check(s.f.len() == 255, "full", || "faces are missing".into());
        }
        _ => {
            let mut m = HalfEdgeMeshImpl::<TT<u32, u16, u16>>::new();
            let n = 65535u64;
            for k in 0..n {
                let id = m.add_vertex(Pay(k));
                c.check(id as u64 == k, "alias", || format!("vertex {k} got id {id}"));
            }
            let r = c.expect_panic(|| m.add_vertex(Pay(1)));
            c.check(r.is_none(), "overflow:add_vertex", || format!("vertex number 65536 got id {}", r.unwrap()));
        }
    }
    // creating an index out of range
    let big = c.rng.int(256, 70000);
    let r = c.expect_panic(|| <u8 as IndexType>::new(big));
    c.check(r.is_none(), "index-range", || format!("index {big} became {:?}", r));
    let big = c.rng.int(65536, 1 << 40);
    let r = c.expect_panic(|| <u16 as IndexType>::new(big));
    c.check(r.is_none(), "index-range", || format!("index {big} became {:?}", r));
    let big = c.rng.int(1 << 32, 1 << 60);
    let r = c.expect_panic(|| <u32 as IndexType>::new(big));
    c.check(r.is_none(), "index-range", || format!("index {big} became {:?}", r));
    let x = c.rng.below(256);
    c.check(<u8 as IndexType>::new(x).index() == x && <u16 as IndexType>::new(x * 200).index() == x * 200 && <u32 as IndexType>::new(x * 9999999).index() == x * 9999999, "index-value", || format!("index {x} is not preserved"));
    c.count("exhausted");
    c.fingerprint(vmon::mix(c.index % 4, big as u64));
    c.nontrivial();
}

pub fn props() -> Vec<Property> {
    vec![
        Property {
            id: "C03",
            workloads: vec![w("container", 160000, 1280000, c03)],
            floors: vec![("reused", 10000), ("deleted", 10000), ("set", 3000), ("refused", 3000), ("clear", 100)],
            rule: "A case is a random sequence of operations on the slot container next to a map model; everything observable is compared after every operation. Non-trivial: more than two slots were used; distinct: by the hash of the logged history.",
            assumptions: vec!["deleting is only applied to live elements, overwriting to reserved ones"],
        },
        Property {
            id: "C08",
            workloads: vec![w("container", 60, 800, c08_container), w("mesh", 1200, 20000, c08_mesh), w("exhaust", 40, 200, c08_exhaust)],
            floors: vec![("capacity-reached", 40), ("fits", 100), ("refused", 100), ("exhausted", 30)],
            rule: "A case fills the container or a mesh with 8- or 16-bit indices up to the limit, or runs the same random edit history with small and large indices side by side. Distinct: by the hash of the history.",
            assumptions: vec!["the largest value of the index type is reserved"],
        },
    ]
}
