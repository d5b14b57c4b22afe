//! C01 well-formedness under all edit histories, C02 edits are local and lossless,
//! C05 edge splitting, C06 flipping.

use crate::machine::*;
use crate::types::*;
use vmon::{w, Case, Property};

fn run(c: &mut Case, ops: &'static [(Op, u32)], wf: bool) {
    let steps = if c.thorough { c.rng.int(20, 250) } else { c.rng.int(15, 90) };
    let limit = size(c, &[8, 14, 25, 50]);
    let n = match c.rng.below(3) {
        0 => Machine::<TT<usize, usize, usize>>::new(limit, wf).history(c, steps, ops),
        1 => Machine::<TT<u32, u16, u8>>::new(limit, wf).history(c, steps.min(150), ops),
        _ => Machine::<TT<u16, u32, u32>>::new(limit, wf).history(c, steps, ops),
    };
    c.add("steps", n as u64);
    if n >= 5 {
        c.nontrivial();
    }
}

fn c01(c: &mut Case) {
    run(c, ALL, true)
}
fn c01_reuse(c: &mut Case) {
    run(c, REUSE, true)
}
fn c02(c: &mut Case) {
    run(c, ALL, false)
}
fn c02_reuse(c: &mut Case) {
    run(c, REUSE, false)
}
fn c05(c: &mut Case) {
    run(c, SPLIT, false)
}
fn c06(c: &mut Case) {
    run(c, FLIP, false)
}

const RULE: &str = "A case is a random history of edit operations whose preconditions hold, on a mesh with randomly chosen index types; after every step all links, ids, payloads and counts are read through the public accessors and judged. Non-trivial: at least 5 operations were applied; distinct: by the hash of the logged history.";

pub fn props() -> Vec<Property> {
    vec![
        Property {
            id: "C01",
            workloads: vec![w("history", 48000, 600000, c01), w("face-churn", 16000, 200000, c01_reuse)],
            floors: vec![
                ("op:EdgeBetween", 500), ("op:InsertEdge", 500), ("op:CloseFace", 500), ("op:CloseFaceVertices", 300), ("op:CloseHole", 500), ("op:RemoveFace", 500),
                ("op:SplitEdge", 500), ("op:FlipEdge", 300), ("op:FlipMesh", 100), ("op:Subdivide", 300), ("op:Path", 100), ("op:Loop", 100), ("joined-two-wheels", 200),
            ],
            rule: RULE,
            assumptions: vec!["operations are only called when their documented (debug-asserted) preconditions hold"],
        },
        Property {
            id: "C02",
            workloads: vec![w("history", 48000, 600000, c02), w("face-churn", 16000, 200000, c02_reuse)],
            floors: vec![("op:CloseFace", 500), ("op:RemoveFace", 500), ("remove-close-roundtrip", 300), ("face-after-removal", 500), ("op:Payloads", 200), ("op:Clone", 40)],
            rule: RULE,
            assumptions: vec!["operations are only called when their documented (debug-asserted) preconditions hold"],
        },
        Property {
            id: "C05",
            workloads: vec![w("split-history", 48000, 600000, c05)],
            floors: vec![("op:SplitEdge", 5000), ("op:Subdivide", 3000), ("split-dangling", 50)],
            rule: RULE,
            assumptions: vec![],
        },
        Property {
            id: "C06",
            workloads: vec![w("flip-history", 48000, 600000, c06)],
            floors: vec![("op:FlipEdge", 5000), ("op:FlipMesh", 1000), ("flip-twice", 1000)],
            rule: RULE,
            assumptions: vec![],
        },
    ]
}
