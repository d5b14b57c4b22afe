//! C29 text layout.

use crate::curve::*;
use crate::geo::*;
use crate::ops::canon;
use crate::snap::*;
use ab_glyph::{Font as _, FontRef, OutlineCurve};
use procedural_modelling::extensions::nalgebra::*;
use procedural_modelling::mesh::Font;
use procedural_modelling::prelude::*;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::OnceLock;
use vmon::{w, Case, Property, Rng};

/// A closed outline: for every edge the control points from one corner to the next.
pub type Outline = Vec<Vec<P2>>;

// ---------------------------------------------------------------------------------------- fonts

/// Writes a minimal TrueType font.
pub struct Synth {
    pub data: Vec<u8>,
    pub chars: Vec<char>,
}
fn be16(o: &mut Vec<u8>, v: i64) {
    o.extend_from_slice(&(v as u16).to_be_bytes());
}
fn be32(o: &mut Vec<u8>, v: i64) {
    o.extend_from_slice(&(v as u32).to_be_bytes());
}
/// Contours of points (x, y, on curve).
fn glyf(contours: &[Vec<(i64, i64, bool)>]) -> Vec<u8> {
    let mut o = vec![];
    if contours.is_empty() {
        return o;
    }
    let all: Vec<(i64, i64, bool)> = contours.concat();
    be16(&mut o, contours.len() as i64);
    be16(&mut o, all.iter().map(|p| p.0).min().unwrap());
    be16(&mut o, all.iter().map(|p| p.1).min().unwrap());
    be16(&mut o, all.iter().map(|p| p.0).max().unwrap());
    be16(&mut o, all.iter().map(|p| p.1).max().unwrap());
    let mut n = 0;
    for c in contours {
        n += c.len() as i64;
        be16(&mut o, n - 1);
    }
    be16(&mut o, 0);
    for p in &all {
        o.push(p.2 as u8);
    }
    for k in 0..2 {
        let mut last = 0;
        for p in &all {
            let x = if k == 0 { p.0 } else { p.1 };
            be16(&mut o, x - last);
            last = x;
        }
    }
    while o.len() % 4 != 0 {
        o.push(0);
    }
    o
}
pub fn synth(r: &mut Rng) -> Synth {
    let upem = *r.pick(&[1000i64, 2048, 256, 16384]);
    let n = r.int(4, 12);
    let mut chars: Vec<char> = vec![' '];
    while chars.len() < n {
        let c = match r.below(4) {
            0 | 1 => char::from_u32(r.int(0x21, 0x7e) as u32),
            2 => char::from_u32(r.int(0xa1, 0x2fff) as u32),
            _ => char::from_u32(r.int(0x10000, 0x1ffff) as u32),
        };
        if let Some(c) = c {
            if !chars.contains(&c) {
                chars.push(c);
            }
        }
    }
    chars.sort();
    let size = r.int(upem as usize / 8, (upem as usize).min(8000)) as i64;
    let mut glyphs: Vec<Vec<u8>> = vec![];
    for i in 0..=chars.len() {
        // glyph 0 is the missing glyph, the blank has no outline
        let mut cs = vec![];
        if !(i > 0 && chars[i - 1] == ' ') && r.chance(0.95) {
            for _ in 0..*r.pick(&[1, 1, 1, 2, 3, 5]) {
                let k = r.int(3, 12);
                let curvy = *r.pick(&[0.0, 0.3, 0.6, 1.0]);
                let mut c: Vec<(i64, i64, bool)> = vec![];
                while c.len() < k {
                    let p = (r.i64(-size, size), r.i64(-size, size), !r.chance(curvy));
                    if !c.iter().any(|q| (q.0, q.1) == (p.0, p.1)) {
                        c.push(p);
                    }
                }
                cs.push(c);
            }
        }
        glyphs.push(glyf(&cs));
    }
    let adv: Vec<i64> = glyphs.iter().map(|_| if r.chance(0.1) { 0 } else { r.i64(1, upem * 2) }).collect();
    let mut kern: Vec<(i64, i64, i64)> = vec![];
    for a in 0..glyphs.len() as i64 {
        for b in 0..glyphs.len() as i64 {
            if r.chance(0.3) {
                kern.push((a, b, r.i64(-upem / 3, upem / 3)));
            }
        }
    }
    let ng = glyphs.len() as i64;
    let (asc, desc) = (r.i64(upem / 2, upem), -r.i64(0, upem / 2));
    let mut head = vec![];
    be32(&mut head, 0x10000);
    be32(&mut head, 0x10000);
    be32(&mut head, 0);
    be32(&mut head, 0x5f0f3cf5);
    be16(&mut head, 0);
    be16(&mut head, upem);
    head.extend([0; 16]);
    for v in [-size, -size, size, size, 0, 8, 2, 1, 0] {
        be16(&mut head, v);
    }
    let mut hhea = vec![];
    be32(&mut hhea, 0x10000);
    for v in [asc, desc, r.i64(0, 100), upem * 2] {
        be16(&mut hhea, v);
    }
    hhea.extend([0; 22]);
    be16(&mut hhea, ng);
    let mut maxp = vec![];
    be32(&mut maxp, 0x10000);
    be16(&mut maxp, ng);
    maxp.extend([0; 26]);
    let mut hmtx = vec![];
    for a in &adv {
        be16(&mut hmtx, *a);
        be16(&mut hmtx, 0);
    }
    let (mut loca, mut gl) = (vec![], vec![]);
    for g in &glyphs {
        be32(&mut loca, gl.len() as i64);
        gl.extend_from_slice(g);
    }
    be32(&mut loca, gl.len() as i64);
    let mut cmap = vec![];
    be16(&mut cmap, 0);
    be16(&mut cmap, 1);
    be16(&mut cmap, 3);
    be16(&mut cmap, 10);
    be32(&mut cmap, 12);
    be16(&mut cmap, 12);
    be16(&mut cmap, 0);
    be32(&mut cmap, 16 + 12 * chars.len() as i64);
    be32(&mut cmap, 0);
    be32(&mut cmap, chars.len() as i64);
    for (i, c) in chars.iter().enumerate() {
        be32(&mut cmap, *c as i64);
        be32(&mut cmap, *c as i64);
        be32(&mut cmap, i as i64 + 1);
    }
    let mut kt = vec![];
    be16(&mut kt, 0);
    be16(&mut kt, 1);
    be16(&mut kt, 0);
    be16(&mut kt, 14 + 6 * kern.len() as i64);
    be16(&mut kt, 1);
    be16(&mut kt, kern.len() as i64);
    kt.extend([0; 6]);
    for (a, b, v) in &kern {
        be16(&mut kt, *a);
        be16(&mut kt, *b);
        be16(&mut kt, *v);
    }
    let mut tables: Vec<(&[u8; 4], Vec<u8>)> = vec![(b"cmap", cmap), (b"glyf", gl), (b"head", head), (b"hhea", hhea), (b"hmtx", hmtx), (b"loca", loca), (b"maxp", maxp)];
    if !kern.is_empty() {
        tables.push((b"kern", kt));
        tables.sort_by_key(|t| *t.0);
    }
    let mut o = vec![];
    be32(&mut o, 0x10000);
    be16(&mut o, tables.len() as i64);
    o.extend([0; 6]);
    let mut at = 12 + 16 * tables.len();
    for (tag, d) in &tables {
        o.extend_from_slice(*tag);
        be32(&mut o, 0);
        be32(&mut o, at as i64);
        be32(&mut o, d.len() as i64);
        at += d.len().div_ceil(4) * 4;
    }
    for (_, d) in &tables {
        o.extend_from_slice(d);
        while o.len() % 4 != 0 {
            o.push(0);
        }
    }
    Synth { data: o, chars }
}

fn pt(p: &ab_glyph::Point) -> P2 {
    [p.x as f64, p.y as f64]
}
/// The contours of a glyph in font units; None: outside of what is specified (contours that touch their own first point, or with less than three edges).
pub fn contours<F: ab_glyph::Font>(f: &F, ch: char) -> Option<Vec<Outline>> {
    let Some(o) = f.outline(f.glyph_id(ch)) else {
        return Some(vec![]);
    };
    let mut r: Vec<Outline> = vec![];
    let mut cur: Outline = vec![];
    for k in &o.curves {
        let q: Vec<P2> = match k {
            OutlineCurve::Line(a, b) => vec![pt(a), pt(b)],
            OutlineCurve::Quad(a, b, c) => vec![pt(a), pt(b), pt(c)],
            OutlineCurve::Cubic(a, b, c, d) => vec![pt(a), pt(b), pt(c), pt(d)],
        };
        if q[0] == q[q.len() - 1] {
            if q.len() == 2 {
                continue;
            }
            return None;
        }
        if let Some(l) = cur.last() {
            if l[l.len() - 1] != q[0] {
                return None;
            }
        }
        let end = q[q.len() - 1];
        cur.push(q);
        if cur[0][0] == end {
            r.push(std::mem::take(&mut cur));
        }
    }
    if !cur.is_empty() {
        return None;
    }
    for c in &r {
        let mut p: Vec<P2> = c.iter().map(|e| e[0]).collect();
        p.sort_by(|a, b| a.partial_cmp(b).unwrap());
        if c.len() < 3 || p.windows(2).any(|w| w[0] == w[1]) {
            return None;
        }
    }
    Some(r)
}

static COCHINEAL: &[u8] = include_bytes!("/repo/assets/Cochineal-Roman.otf");
static GO: &[u8] = include_bytes!("../fonts/Go-Regular.ttf");
static MONO: &[u8] = include_bytes!("../fonts/Go-Mono-Italic.ttf");
/// The usable characters of the real fonts.
fn real(k: usize) -> (&'static [u8], &'static [char]) {
    static C: [OnceLock<Vec<char>>; 3] = [OnceLock::new(), OnceLock::new(), OnceLock::new()];
    let d = [COCHINEAL, GO, MONO][k];
    let v = C[k].get_or_init(|| {
        let f = FontRef::try_from_slice(d).unwrap();
        let mut r: Vec<char> = (0x20..0x3000u32).filter_map(char::from_u32).filter(|c| f.glyph_id(*c).0 != 0).filter(|c| contours(&f, *c).is_some()).collect();
        r.extend(['\u{e000}', '\n', '\u{1f600}'].iter().filter(|c| contours(&f, **c).is_some()));
        r
    });
    (d, v)
}

// ---------------------------------------------------------------------------------------- oracle

pub struct Read {
    pub s: Snap,
    pub p: BTreeMap<usize, P2>,
    pub k: BTreeMap<usize, Curve>,
}
pub fn read(c: &mut Case, m: &MC, what: &str) -> Option<Read> {
    let (s, _) = monitor(c, m, what);
    (!c.failed()).then(|| Read { s, p: posc(m), k: m.edges().map(|e| (e.id(), e.curve_type())).collect() })
}
/// The new content has to be the outlines as separate faces, in order, and the old content has to be unchanged.
/// `along`: the face follows the outline; otherwise it is on its other side.
pub fn compare(c: &mut Case, what: &str, old: &Read, new: &Read, out: &[Outline], along: bool, tol: f64) {
    let keep = old.s.e.iter().all(|(i, x)| new.s.e.get(i) == Some(x))
        && old.s.v.iter().all(|(i, x)| new.s.v.get(i) == Some(x))
        && old.s.f.iter().all(|(i, x)| new.s.f.get(i) == Some(x))
        && old.p.iter().all(|(i, x)| new.p.get(i) == Some(x))
        && old.k.iter().all(|(i, x)| new.k.get(i) == Some(x));
    c.check(keep, &format!("old-content:{what}"), || "the old content of the mesh changed".into());
    let faces: BTreeSet<usize> = new.s.f.keys().filter(|f| !old.s.f.contains_key(f)).copied().collect();
    let n: usize = out.iter().map(|o| o.len()).sum();
    c.check(faces.len() == out.len(), &format!("faces:{what}"), || format!("{} new faces instead of {}", faces.len(), out.len()));
    c.check(new.s.v.len() == old.s.v.len() + n, &format!("vertices:{what}"), || format!("{} new vertices instead of {n}", new.s.v.len() - old.s.v.len()));
    c.check(new.s.e.len() == old.s.e.len() + 2 * n, &format!("edges:{what}"), || format!("{} new half-edges instead of {}", new.s.e.len() - old.s.e.len(), 2 * n));
    if c.failed() || faces.len() != out.len() {
        return;
    }
    // new vertices appear in the order in which they are drawn
    let mut nv = new.s.v.keys().filter(|v| !old.s.v.contains_key(v)).copied();
    let mut used = BTreeSet::new();
    for (i, o) in out.iter().enumerate() {
        let vs: Vec<usize> = nv.by_ref().take(o.len()).collect();
        for (v, e) in vs.iter().zip(o) {
            let d = d2(new.p[v], e[0]);
            c.check(d <= tol, &format!("position:{what}"), || format!("vertex {v} of outline {i} is at {:?} instead of {:?}", new.p[v], e[0]));
        }
        let mut g = vs.clone();
        if !along {
            g.reverse();
        }
        let Some(first) = vs.first() else { continue };
        let f = new.s.wheel(*first).iter().map(|e| new.s.e[e].face).find(|f| *f != NO).unwrap_or(NO);
        c.check(faces.contains(&f) && used.insert(f), &format!("faces:{what}"), || format!("outline {i} has no face of its own"));
        if f == NO {
            continue;
        }
        let got = new.s.face_verts(f);
        c.check(canon(&got) == canon(&g) && !new.s.f[&f].curved, &format!("outline:{what}"), || format!("the face of outline {i} has the vertices {got:?} instead of {g:?}"));
        for (j, e) in o.iter().enumerate() {
            let (a, b) = (vs[j], vs[(j + 1) % vs.len()]);
            let es = new.s.shared(a, b);
            c.check(es.is_some(), &format!("edges:{what}"), || format!("no edge between {a} and {b}"));
            let Some(h) = es else { continue };
            let t = new.s.e[&h].twin;
            c.check(new.k[&t] == CurvedEdgeType::Linear, &format!("twin-curve:{what}"), || format!("the edge from {b} to {a} is curved, too"));
            let q = controls(&new.k[&h], new.p[&a], new.p[&b]);
            let ok = q.len() == e.len() && q.iter().zip(e).all(|(x, y)| d2(*x, *y) <= tol);
            c.check(ok, &format!("curve:{what}"), || format!("edge {j} of outline {i} has the control points {q:?} instead of {e:?}"));
            c.count(["", "", "edge:line", "edge:quadratic", "edge:cubic"][e.len()]);
        }
    }
    c.add("outlines", out.len() as u64);
}

fn layout(c: &mut Case) {
    c.phase("setup");
    let sy;
    let (data, chars): (&[u8], &[char]) = if c.rng.chance(0.4) {
        let k = c.rng.below(3);
        c.count(["font:cubic", "font:quadratic", "font:mono"][k]);
        real(k)
    } else {
        sy = synth(&mut c.rng);
        c.count("font:synthetic");
        (&sy.data, &sy.chars)
    };
    let f = match FontRef::try_from_slice(data) {
        Ok(f) => f,
        Err(e) => panic!("harness: the font is broken: {e}"),
    };
    let mut cache: BTreeMap<char, Vec<Outline>> = BTreeMap::new();
    let mut good: Vec<char> = vec![];
    for _ in 0..8 {
        let ch = *c.rng.pick(chars);
        if let Some(o) = contours(&f, ch) {
            cache.insert(ch, o);
            good.push(ch);
        }
    }
    for ch in [' ', '\u{ffff}'] {
        if let Some(o) = contours(&f, ch) {
            if c.rng.chance(0.5) {
                cache.insert(ch, o);
                good.push(ch);
            }
        }
    }
    if good.is_empty() {
        c.count("no usable glyphs");
        return;
    }
    let n = if c.rng.chance(0.05) { 0 } else { let k = c.rng.rare(10, 150); c.rng.int(1, k) };
    let text: String = (0..n).map(|_| *c.rng.pick(&good)).collect();
    let scale = if c.rng.chance(0.3) { 1.0f32 } else { c.rng.logf(1e-2, 1e3) as f32 };
    c.log(format!("{text:?} at {scale}"));
    // points to pixels at 96 dots per inch
    let k = scale as f64 * 96.0 / 72.0 / f.units_per_em().unwrap() as f64;
    let mut x = 0.0;
    let mut out: Vec<Outline> = vec![];
    let mut last = None;
    let mut span = 0.0f64;
    for ch in text.chars() {
        let g = f.glyph_id(ch);
        if let Some(l) = last {
            let kern = f.kern_unscaled(l, g) as f64;
            if kern != 0.0 {
                c.count("kerning");
            }
            x += kern * k;
        }
        for o in &cache[&ch] {
            out.push(o.iter().map(|e| e.iter().map(|p| [p[0] * k + x, p[1] * k]).collect()).collect());
        }
        c.count(match cache[&ch].len() {
            0 => "blank",
            1 => "one-contour",
            _ => "several-contours",
        });
        x += f.h_advance_unscaled(g) as f64 * k;
        span = span.max(x.abs());
        last = Some(g);
    }
    for p in out.iter().flatten().flatten() {
        span = span.max(p[0].abs()).max(p[1].abs());
    }
    let tol = 4e-6 * span + 1e-30;
    let mut font = Font::new(data, if c.rng.chance(0.5) { scale } else { 3.0 });
    font.set_scale(scale);
    c.phase("advance");
    for ch in &good {
        let (a, b) = (font.get_advance(*ch) as f64, f.h_advance_unscaled(f.glyph_id(*ch)) as f64 * k);
        c.check((a - b).abs() <= 1e-5 * b.abs(), "advance", || format!("the advance of {ch:?} is {a} instead of {b}"));
    }
    let mut m = MC::default();
    if c.rng.chance(0.4) {
        m = curved_scene(c, 0.2);
        c.count("not-empty");
    }
    let Some(old) = read(c, &m, "before") else { return };
    c.phase("layout_text");
    font.layout_text::<2, TC>(&text, &mut m);
    c.phase("judge");
    let Some(new) = read(c, &m, "text") else { return };
    compare(c, "text", &old, &new, &out, true, tol);
    if c.rng.chance(0.3) {
        // a second text behind the first one
        c.phase("layout_text");
        font.layout_text::<2, TC>(&text, &mut m);
        c.phase("judge");
        let Some(again) = read(c, &m, "again") else { return };
        compare(c, "again", &new, &again, &out, true, tol);
        c.count("twice");
    }
    c.state(new.s.hash());
    c.fingerprint(new.p.values().fold(vmon::fnv(text.as_bytes()), |h, p| vmon::mix(h, p[0].to_bits() ^ p[1].to_bits().rotate_left(17))));
    if !out.is_empty() {
        c.nontrivial();
    }
}

pub fn props() -> Vec<Property> {
    vec![Property {
        id: "C29",
        workloads: vec![w("layout", 90000, 720000, layout)],
        floors: vec![
            ("font:cubic", 300), ("font:quadratic", 300), ("font:mono", 300), ("font:synthetic", 2000), ("kerning", 500), ("blank", 500), ("one-contour", 2000), ("several-contours", 2000), ("not-empty", 500),
            ("twice", 500), ("edge:line", 5000), ("edge:quadratic", 5000), ("edge:cubic", 1000), ("outlines", 5000),
        ],
        rule: "A case is a text in a real or a random synthetic font; every face, vertex and curve is compared with the outlines, advances and kerning read directly from the font. Non-trivial: there is an outline.",
        assumptions: vec!["ab_glyph reads the font files correctly; glyphs whose contours touch their own first point or have less than three edges are not used"],
    }]
}
