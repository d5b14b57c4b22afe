//! C30 SVG import.

use crate::curve::*;
use crate::geo::*;
use crate::text::{compare, read, Outline};
use procedural_modelling::extensions::svg::BackendSVG;
use vmon::{w, Case, Property, Rng};

/// Affine map [a b c d e f] as in SVG.
type Aff = [f64; 6];
const ID: Aff = [1.0, 0.0, 0.0, 1.0, 0.0, 0.0];
fn mul(m: &Aff, n: &Aff) -> Aff {
    [
        m[0] * n[0] + m[2] * n[1],
        m[1] * n[0] + m[3] * n[1],
        m[0] * n[2] + m[2] * n[3],
        m[1] * n[2] + m[3] * n[3],
        m[0] * n[4] + m[2] * n[5] + m[4],
        m[1] * n[4] + m[3] * n[5] + m[5],
    ]
}
fn app(m: &Aff, p: P2) -> P2 {
    [m[0] * p[0] + m[2] * p[1] + m[4], m[1] * p[0] + m[3] * p[1] + m[5]]
}

struct Doc {
    out: Vec<Outline>,
    defs: String,
    id: usize,
    left: i64,
}
/// Multiples of a quarter, written in different ways.
fn q(r: &mut Rng, k: i64) -> f64 {
    r.i64(-4 * k, 4 * k) as f64 / 4.0
}
fn num(r: &mut Rng, x: f64) -> String {
    match r.below(6) {
        0 => format!("{x:.2}"),
        1 if x != 0.0 && x.abs() < 1.0 => format!("{x}").replacen("0.", ".", 1),
        2 => format!("{x:e}"),
        _ => format!("{x}"),
    }
}
fn nums(r: &mut Rng, xs: &[f64]) -> String {
    let sep = *r.pick(&[" ", ",", " , ", "  "]);
    xs.iter().map(|x| num(r, *x)).collect::<Vec<_>>().join(sep)
}

/// The transform attribute and its matrix.
fn transform(c: &mut Case) -> (String, Aff) {
    let r = &mut c.rng;
    if r.chance(0.35) {
        return (String::new(), ID);
    }
    let (mut s, mut m) = (vec![], ID);
    for _ in 0..*r.pick(&[1, 1, 2, 3]) {
        let (t, n): (String, Aff) = match r.below(9) {
            0 | 1 => {
                let (x, y) = (q(r, 20), q(r, 20));
                if r.chance(0.2) {
                    (format!("translate({})", num(r, x)), [1.0, 0.0, 0.0, 1.0, x, 0.0])
                } else {
                    (format!("translate({})", nums(r, &[x, y])), [1.0, 0.0, 0.0, 1.0, x, y])
                }
            }
            2 | 3 => {
                let mut k = || *r.pick(&[0.5, 2.0, -1.0, 1.5, 0.25, 3.0, -0.5]);
                let (x, y) = (k(), k());
                if r.chance(0.3) {
                    (format!("scale({})", num(r, x)), [x, 0.0, 0.0, x, 0.0, 0.0])
                } else {
                    (format!("scale({})", nums(r, &[x, y])), [x, 0.0, 0.0, y, 0.0, 0.0])
                }
            }
            4 | 5 => {
                let a = if r.chance(0.3) { *r.pick(&[90.0, 180.0, -90.0, 270.0, 45.0]) } else { q(r, 200) };
                let (sn, cs) = a.to_radians().sin_cos();
                let rot = [cs, sn, -sn, cs, 0.0, 0.0];
                if r.chance(0.4) {
                    let (x, y) = (q(r, 10), q(r, 10));
                    (format!("rotate({})", nums(r, &[a, x, y])), mul(&mul(&[1.0, 0.0, 0.0, 1.0, x, y], &rot), &[1.0, 0.0, 0.0, 1.0, -x, -y]))
                } else {
                    (format!("rotate({})", num(r, a)), rot)
                }
            }
            6 => {
                let a = q(r, 60);
                (format!("skewX({})", num(r, a)), [1.0, 0.0, a.to_radians().tan(), 1.0, 0.0, 0.0])
            }
            7 => {
                let a = q(r, 60);
                (format!("skewY({})", num(r, a)), [1.0, a.to_radians().tan(), 0.0, 1.0, 0.0, 0.0])
            }
            _ => {
                let k = loop {
                    let k = [q(r, 3), q(r, 3), q(r, 3), q(r, 3), q(r, 20), q(r, 20)];
                    if (k[0] * k[3] - k[1] * k[2]).abs() >= 0.25 {
                        break k;
                    }
                };
                (format!("matrix({})", nums(r, &k)), k)
            }
        };
        s.push(t);
        m = mul(&m, &n);
    }
    let sep = *r.pick(&[" ", ", ", "\n"]);
    c.count("transform");
    (format!(" transform=\"{}\"", s.join(sep)), m)
}

/// A path with several subpaths.
fn path(c: &mut Case) -> (String, Vec<Outline>) {
    let (mut d, mut out) = (String::new(), vec![]);
    let mut cur = [0.0, 0.0];
    let mut start = [0.0, 0.0];
    let mut moved = false;
    let subs = *c.rng.pick(&[1, 1, 1, 2, 3, 6]);
    let mut after_z = false;
    for sub in 0..subs {
        let implicit = after_z && c.rng.chance(0.3);
        let r = &mut c.rng;
        // where it starts
        let mut pts: Vec<P2> = vec![];
        if implicit {
            // without a command to move, the path goes on at the last start
            cur = start;
            c.count("implicit-move");
        } else {
            let p = [q(r, 50), q(r, 50)];
            if moved && r.chance(0.4) {
                let v = [p[0] - cur[0], p[1] - cur[1]];
                d += &format!("m{}", nums(r, &v));
            } else {
                d += &format!("{}{}", if moved { "M" } else { *r.pick(&["M", "m", " M "]) }, nums(r, &p));
            }
            cur = p;
            start = p;
        }
        moved = true;
        pts.push(cur);
        let mut o: Outline = vec![];
        let r = &mut c.rng;
        let n = r.int(2, 8);
        let close = r.below(3);
        let back = r.chance(0.4);
        let mut ctrl: Option<(char, P2)> = None;
        let mut last = ' ';
        let c = &mut *c;
        for i in 0..n + back as usize {
            let r = &mut c.rng;
            let end = i == n;
            let mut cmd = *r.pick(&['L', 'L', 'H', 'V', 'Q', 'T', 'C', 'S', 'C']);
            if end && matches!(cmd, 'H' | 'V') {
                cmd = 'L';
            }
            let p = if end {
                start
            } else {
                loop {
                    let mut p = [q(r, 50), q(r, 50)];
                    match cmd {
                        'H' => p[1] = cur[1],
                        'V' => p[0] = cur[0],
                        _ => {}
                    }
                    if !pts.contains(&p) {
                        break p;
                    }
                }
            };
            let (a, b) = ([q(r, 50), q(r, 50)], [q(r, 50), q(r, 50)]);
            let rel = r.chance(0.5);
            let f = |p: P2| if rel { [p[0] - cur[0], p[1] - cur[1]] } else { p };
            let refl = |k: char| match ctrl {
                Some((x, z)) if x == k => [2.0 * cur[0] - z[0], 2.0 * cur[1] - z[1]],
                _ => cur,
            };
            let (fa, fb, fp) = (f(a), f(b), f(p));
            let (args, seg): (Vec<f64>, Vec<P2>) = match cmd {
                'L' => (fp.to_vec(), vec![cur, p]),
                'H' => (vec![fp[0]], vec![cur, p]),
                'V' => (vec![fp[1]], vec![cur, p]),
                'Q' => ([fa, fp].concat(), vec![cur, a, p]),
                'T' => (fp.to_vec(), vec![cur, refl('Q'), p]),
                'C' => ([fa, fb, fp].concat(), vec![cur, a, b, p]),
                _ => ([fb, fp].concat(), vec![cur, refl('C'), b, p]),
            };
            ctrl = match seg.len() {
                3 => Some(('Q', seg[1])),
                4 => Some(('C', seg[2])),
                _ => None,
            };
            let name = if rel { cmd.to_ascii_lowercase() } else { cmd };
            // a repeated command needs no letter
            if name == last && r.chance(0.5) {
                d += " ";
                c.count("repeated-command");
            } else {
                d.push(name);
            }
            let s = nums(&mut c.rng, &args);
            d += &s;
            if c.rng.chance(0.3) {
                d += " ";
            }
            last = name;
            c.count(&format!("command:{cmd}"));
            o.push(seg);
            pts.push(p);
            cur = p;
        }
        if close < 2 {
            d += *c.rng.pick(&["Z", "z", " Z "]);
            after_z = true;
            c.count("closed");
        } else {
            after_z = false;
            c.count(if sub + 1 < subs { "next-without-closing" } else { "not-closed" });
        }
        let end = cur;
        if !back {
            o.push(vec![cur, start]);
        } else {
            c.count("returned");
        }
        cur = if after_z { start } else { end };
        out.push(o);
    }
    (format!("<path d=\"{d}\""), out)
}
fn quarter(ce: P2, a: P2, b: P2) -> Vec<P2> {
    // from ce + a to ce + b
    let k = 4.0 / 3.0 * (2.0f64.sqrt() - 1.0);
    let at = |s: f64, t: f64| [ce[0] + s * a[0] + t * b[0], ce[1] + s * a[1] + t * b[1]];
    vec![at(1.0, 0.0), at(1.0, k), at(k, 1.0), at(0.0, 1.0)]
}
fn shape(c: &mut Case) -> (String, Vec<Outline>) {
    let r = &mut c.rng;
    let (x, y) = (q(r, 50), q(r, 50));
    let (w, h) = (r.int(1, 200) as f64 / 4.0, r.int(1, 200) as f64 / 4.0);
    let line = |v: &[P2]| -> Outline { (0..v.len()).map(|i| vec![v[i], v[(i + 1) % v.len()]]).collect() };
    match r.below(6) {
        0 => {
            let s = format!("<rect x=\"{}\" y=\"{}\" width=\"{}\" height=\"{}\"", num(r, x), num(r, y), num(r, w), num(r, h));
            c.count("rect");
            (s, vec![line(&[[x, y], [x + w, y], [x + w, y + h], [x, y + h]])])
        }
        1 => {
            // rounded; too large radii are reduced to half the size
            let (rx, ry) = (r.int(1, 100) as f64 / 4.0, r.int(1, 100) as f64 / 4.0);
            let one = r.chance(0.4);
            let ry = if one { rx } else { ry };
            let (r0, r1) = (rx, ry);
            let (rx, ry) = (rx.min(w / 2.0), ry.min(h / 2.0));
            // usvg rounds the ends of the arcs: 0.0 becomes, e.g., -2e-15, which is another vertex
            let (x, y) = (x + 0.0625, y + 0.0625);
            let s = format!("<rect x=\"{x}\" y=\"{y}\" width=\"{w}\" height=\"{h}\" rx=\"{r0}\"{}", if one { String::new() } else { format!(" ry=\"{r1}\"") });
            let p = [
                ([x + w - rx, y + ry], [0.0, -ry], [rx, 0.0]),
                ([x + w - rx, y + h - ry], [rx, 0.0], [0.0, ry]),
                ([x + rx, y + h - ry], [0.0, ry], [-rx, 0.0]),
                ([x + rx, y + ry], [-rx, 0.0], [0.0, -ry]),
            ];
            let mut o: Outline = vec![];
            for (i, (ce, a, b)) in p.iter().enumerate() {
                let k = quarter(*ce, *a, *b);
                let from = match o.last() {
                    Some(l) => l[l.len() - 1],
                    None => {
                        let z = p[3];
                        [z.0[0] + z.2[0], z.0[1] + z.2[1]]
                    }
                };
                let full = if i % 2 == 0 { 2.0 * rx == w } else { 2.0 * ry == h };
                if !full {
                    o.push(vec![from, k[0]]);
                } else {
                    c.count("full-radius");
                }
                o.push(k);
            }
            c.count("rounded");
            (s, vec![o])
        }
        2 | 3 => {
            let (s, rx, ry) = if r.chance(0.5) {
                (format!("<circle cx=\"{}\" cy=\"{}\" r=\"{w}\"", num(r, x), num(r, y)), w, w)
            } else {
                (format!("<ellipse cx=\"{}\" cy=\"{}\" rx=\"{w}\" ry=\"{h}\"", num(r, x), num(r, y)), w, h)
            };
            let d = [[rx, 0.0], [0.0, ry], [-rx, 0.0], [0.0, -ry]];
            c.count("ellipse");
            (s, vec![(0..4).map(|i| quarter([x, y], d[i], d[(i + 1) % 4])).collect()])
        }
        k => {
            let n = r.int(3, 9);
            let mut v: Vec<P2> = vec![];
            while v.len() < n {
                let p = [q(r, 50), q(r, 50)];
                if !v.contains(&p) {
                    v.push(p);
                }
            }
            let s = v.iter().map(|p| nums(r, p)).collect::<Vec<_>>().join(" ");
            c.count(if k == 4 { "polygon" } else { "polyline" });
            (format!("<{} points=\"{s}\"", if k == 4 { "polygon" } else { "polyline" }), vec![line(&v)])
        }
    }
}

fn nodes(c: &mut Case, doc: &mut Doc, m: &Aff, depth: usize, shown: bool) -> String {
    let mut s = String::new();
    let k = if doc.left > 10 { 40 } else { 4 };
    for _ in 0..c.rng.int(1, k) {
        if doc.left <= 0 {
            break;
        }
        s += *c.rng.pick(&["", "\n", "  ", "<!-- <path d=\"M0 0L1 0L1 1Z\"/> -->"]);
        if depth < 4 && c.rng.chance(0.3) {
            let (t, n) = transform(c);
            let (extra, show) = match c.rng.below(12) {
                0 => (" display=\"none\"", false),
                1 => (" opacity=\"0.5\"", true),
                2 => (" fill=\"red\" stroke=\"blue\"", true),
                3 => (" id=\"some\"", true),
                _ => ("", true),
            };
            let inner = nodes(c, doc, &mul(m, &n), depth + 1, shown && show);
            s += &format!("<g{t}{extra}>{inner}</g>");
            c.count("group");
            continue;
        }
        doc.left -= 1;
        let (t, n) = transform(c);
        let (el, outs) = if c.rng.chance(0.65) { path(c) } else { shape(c) };
        let (extra, show) = match c.rng.below(16) {
            0 => (" display=\"none\"", false),
            1 => (" visibility=\"hidden\"", false),
            2 => (" fill=\"none\" stroke=\"none\"", false),
            3 => (" fill=\"none\" stroke=\"#123456\"", true),
            4 => (" fill-rule=\"evenodd\" stroke=\"red\" stroke-width=\"2\"", true),
            5 => (" style=\"fill:blue;opacity:0.3\"", true),
            6 => (" style=\"display:none\"", false),
            _ => ("", true),
        };
        let mut full = mul(m, &n);
        let mut visible = shown && show;
        if c.rng.chance(0.1) {
            // drawn through a reference
            doc.id += 1;
            let id = format!("ref{}", doc.id);
            let inside = c.rng.chance(0.3);
            let (x, y) = (q(&mut c.rng, 20), q(&mut c.rng, 20));
            let (tu, nu) = transform(c);
            doc.defs += &format!("{el}{t}{extra} id=\"{id}\"/>");
            let mv = [1.0, 0.0, 0.0, 1.0, x, y];
            full = mul(&mul(&mul(m, &nu), &mv), &n);
            s += &format!("<use {}=\"#{id}\" x=\"{x}\" y=\"{y}\"{tu}/>", if inside { "href" } else { "xlink:href" });
            c.count("use");
        } else {
            s += &format!("{el}{t}{extra}/>");
        }
        if !visible {
            c.count("hidden");
        }
        visible &= !outs.is_empty();
        if visible {
            for o in outs {
                doc.out.push(o.iter().map(|e| e.iter().map(|p| app(&full, *p)).collect()).collect());
            }
            c.count("element");
        }
    }
    s
}

fn import(c: &mut Case) {
    c.phase("setup");
    let mut doc = Doc { out: vec![], defs: String::new(), id: 0, left: { let k = c.rng.rare(10, 120); c.rng.int(1, k) as i64 } };
    let (mut attr, mut m) = (String::new(), ID);
    match c.rng.below(4) {
        0 => {}
        1 => attr = format!(" width=\"{}\" height=\"{}\"", c.rng.int(1, 400), c.rng.int(1, 400)),
        _ => {
            let r = &mut c.rng;
            let (x, y, vw, vh) = (q(r, 40), q(r, 40), r.int(1, 400) as f64 / 4.0, r.int(1, 400) as f64 / 4.0);
            let (w, h) = (r.int(1, 400) as f64, r.int(1, 400) as f64);
            attr = format!(" viewBox=\"{x} {y} {vw} {vh}\"");
            let (mut sx, mut sy, mut tx, mut ty) = (1.0, 1.0, 0.0, 0.0);
            if r.chance(0.7) {
                attr += &format!(" width=\"{w}\" height=\"{h}\"");
                let (kx, ky) = (w / vw, h / vh);
                match r.below(4) {
                    0 => {
                        attr += " preserveAspectRatio=\"none\"";
                        (sx, sy) = (kx, ky);
                    }
                    1 => {
                        attr += " preserveAspectRatio=\"xMinYMax slice\"";
                        sx = kx.max(ky);
                        sy = sx;
                        ty = h - vh * sy;
                    }
                    2 => {
                        attr += " preserveAspectRatio=\"xMaxYMin\"";
                        sx = kx.min(ky);
                        sy = sx;
                        tx = w - vw * sx;
                    }
                    _ => {
                        sx = kx.min(ky);
                        sy = sx;
                        tx = (w - vw * sx) / 2.0;
                        ty = (h - vh * sy) / 2.0;
                    }
                }
            }
            m = [sx, 0.0, 0.0, sy, tx - x * sx, ty - y * sy];
            c.count("viewbox");
        }
    }
    let body = nodes(c, &mut doc, &m, 0, true);
    let text = if c.rng.chance(0.5) { format!("<defs>{}</defs>{body}", doc.defs) } else { format!("{body}<defs>{}</defs>", doc.defs) };
    let text = format!("<svg xmlns=\"http://www.w3.org/2000/svg\" xmlns:xlink=\"http://www.w3.org/1999/xlink\"{attr}>{text}</svg>");
    c.log(text.clone());
    let span = doc.out.iter().flatten().flatten().flatten().fold(0.0f64, |a, b| a.max(b.abs()));
    // the coordinates may be larger before they are transformed
    let tol = 2e-5 * span.max(1.0) * (1.0 + m.iter().fold(0.0f64, |a, b| a.max(b.abs())) / 100.0);
    let mut g = MC::default();
    let empty = !c.rng.chance(0.3);
    if !empty {
        g = curved_scene(c, 0.2);
        c.count("not-empty");
    }
    let Some(old) = read(c, &g, "before") else { return };
    if c.rng.chance(0.02) {
        // nothing to import
        c.phase("nothing");
        let t = *c.rng.pick(&["", " ", "<!-- nothing -->", "\n\n", "<svg xmlns=\"http://www.w3.org/2000/svg\"/>"]);
        BackendSVG::<TC>::import_svg(&mut g, t);
        let Some(new) = read(c, &g, "svg") else { return };
        compare(c, "nothing", &old, &new, &[], false, tol);
        c.count("nothing");
        return;
    }
    c.phase("import");
    if empty && c.rng.chance(0.5) {
        g = <MC as BackendSVG<TC>>::from_svg(&text);
    } else {
        BackendSVG::<TC>::import_svg(&mut g, &text);
    }
    c.phase("judge");
    let Some(new) = read(c, &g, "svg") else { return };
    compare(c, "svg", &old, &new, &doc.out, false, tol);
    c.state(new.s.hash());
    c.fingerprint(vmon::fnv(text.as_bytes()));
    if !doc.out.is_empty() {
        c.nontrivial();
    }
}

pub fn props() -> Vec<Property> {
    vec![Property {
        id: "C30",
        workloads: vec![w("import", 180000, 1500000, import)],
        floors: vec![
            ("command:L", 1000), ("command:H", 1000), ("command:V", 1000), ("command:Q", 1000), ("command:T", 1000), ("command:C", 1000), ("command:S", 1000), ("repeated-command", 500), ("implicit-move", 200),
            ("closed", 1000), ("not-closed", 500), ("nothing", 300), ("next-without-closing", 500), ("returned", 1000), ("transform", 1000), ("group", 1000), ("rect", 200), ("rounded", 200), ("full-radius", 100), ("ellipse", 500), ("polygon", 200), ("polyline", 200),
            ("use", 200), ("hidden", 500), ("viewbox", 1000), ("not-empty", 500), ("element", 5000),
        ],
        rule: "A case is a random SVG document; the outlines are known from its construction, and every face, vertex and curve of the imported mesh is compared with them. Non-trivial: there is a visible outline.",
        assumptions: vec!["usvg parses the document correctly; subpaths have at least three different corners"],
    }]
}
