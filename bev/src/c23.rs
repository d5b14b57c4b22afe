//! C23 for the vectors and polygons of the bevy backend, in addition to those of the nalgebra one.

use bevy::math::{Vec2, Vec3, Vec4};
use core_harness::maths::*;
use procedural_modelling::extensions::bevy::Polygon2dBevy;
use vmon::{w, Case, Property};

fn c23_bevy(c: &mut Case) {
    match c.rng.below(11) {
        10 => c23_four::<f32, Vec4>(c),
        0 | 1 => c23_points::<f32, Vec2>(c),
        2 => c23_segments::<f32, Vec2>(c),
        3 => c23_vectors::<f32, Vec2, 2>(c, |v| Vec2::new(v[0] as f32, v[1] as f32), false),
        4 => c23_vectors::<f32, Vec3, 3>(c, |v| Vec3::new(v[0] as f32, v[1] as f32, v[2] as f32), false),
        5 => c23_vectors::<f32, Vec4, 4>(c, |v| Vec4::from_array(v.map(|x| x as f32)), false),
        6 => c23_space::<f32, Vec3>(c),
        _ => c23_polygons::<f32, Vec2, Polygon2dBevy>(c),
    }
    c.count("bevy");
}

pub fn props() -> Vec<Property> {
    core_harness::maths::props()
        .into_iter()
        .filter(|p| p.id == "C23")
        .map(|mut p| {
            p.workloads.push(w("bevy", 400000, 8000000, c23_bevy));
            p.floors.push(("bevy", 10000));
            p
        })
        .collect()
}
