//! Workloads and monitors for everything but the bevy backend.
#[allow(dead_code)]
pub mod c01;
#[allow(dead_code)]
pub mod c03;
#[allow(dead_code)]
pub mod c04;
#[allow(dead_code)]
pub mod cmp;
#[allow(dead_code)]
pub mod gen;
#[allow(dead_code)]
pub mod geo;
#[allow(dead_code)]
pub mod curve;
#[allow(dead_code)]
pub mod buf;
pub mod c07;
pub mod path;
pub mod svg;
pub mod text;
#[allow(dead_code)]
pub mod machine;
#[allow(dead_code)]
pub mod maths;
#[allow(dead_code)]
pub mod ops;
#[allow(dead_code)]
pub mod prims;
#[allow(dead_code)]
pub mod snap;
#[allow(dead_code)]
pub mod sub;
#[allow(dead_code)]
pub mod tri;
#[allow(dead_code)]
pub mod types;

/// All properties of this crate.
pub fn all() -> Vec<vmon::Property> {
    let mut p = vec![];
    p.extend(c01::props());
    p.extend(c03::props());
    p.extend(c04::props());
    p.extend(c07::props());
    p.extend(ops::props());
    p.extend(prims::props());
    p.extend(sub::props());
    p.extend(tri::props());
    p.extend(buf::props());
    p.extend(maths::props());
    p.extend(cmp::props());
    p.extend(curve::props());
    p.extend(path::props());
    p.extend(text::props());
    p.extend(svg::props());
    p
}
