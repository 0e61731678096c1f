//! C12-C14 and C19: distances of every pair, box bounds, conversions and wrappers.

use super::*;
use crate::engine::H;
use crate::model::Kind;
use geo::{BoundingRect, Coord, Line, LineString, MultiPoint, Point, Polygon, Rect, Triangle};
use std::sync::Arc;

const QT: [&str; 3] = ["Geometry", "GeometryRef", "bare"];

/// Grid shapes of all kinds: `g` coordinate values per axis for points, lines and rects, 3 for the rest.
pub fn pool(tier: Tier) -> Vec<Shape> {
    let full = tier == Tier::Thorough;
    let mut v = vec![];
    let g: Vec<f64> = if full { vec![0.0, 1.0, 2.0, 3.0, 4.0] } else { vec![0.0, 1.0, 2.0, 4.0] };
    let cs: Vec<C> = g.iter().flat_map(|x| g.iter().map(|y| (*x, *y))).collect();
    v.extend(cs.iter().map(|c| Shape::Pt(*c)));
    let h: Vec<f64> = if full { vec![0.0, 1.0, 2.0, 4.0] } else { vec![0.0, 1.0, 3.0] };
    let hs: Vec<C> = h.iter().flat_map(|x| h.iter().map(|y| (*x, *y))).collect();
    for a in &hs {
        for b in &hs {
            v.push(Shape::Ln(*a, *b));
            if a.0 <= b.0 && a.1 <= b.1 {
                v.push(Shape::Rc(*a, *b));
            }
        }
    }
    let t = [0.0, 1.5, 4.0];
    let ts: Vec<C> = t.iter().flat_map(|x| t.iter().map(|y| (*x, *y))).collect();
    for (i, a) in ts.iter().enumerate() {
        for (j, b) in ts.iter().enumerate() {
            for (k, c) in ts.iter().enumerate() {
                if (full && i != j && j != k) || (i < k && (i + 2 * j + k) % 5 == 0 && i != j && j != k) {
                    v.push(Shape::Ls(vec![*a, *b, *c]));
                }
                let area = (b.0 - a.0) * (c.1 - a.1) - (b.1 - a.1) * (c.0 - a.0);
                if i < j && j < k && area != 0.0 && (full || (i + j + k) % 2 == 0) {
                    v.push(Shape::Pg(vec![*a, *b, *c], vec![]));
                }
            }
        }
    }
    v.extend([
        Shape::Ls(vec![(0.0, 0.0), (4.0, 0.0), (4.0, 4.0), (0.0, 4.0)]),
        Shape::Ls(vec![(0.0, 0.0), (0.5, 0.5), (1.0, 0.0), (1.5, 0.5), (2.0, 0.0)]),
        Shape::Ls(vec![(0.0, 0.0), (4.0, 0.0), (4.0, 4.0), (0.0, 4.0), (0.0, 0.0)]),
        Shape::Ls(vec![(2.0, 2.0), (2.0, 2.0)]),
        Shape::Pg(vec![(0.0, 0.0), (4.0, 0.0), (4.0, 4.0), (0.0, 4.0)], vec![]),
        Shape::Pg(vec![(1.0, 1.0), (3.0, 1.0), (3.0, 3.0), (1.0, 3.0)], vec![]),
        Shape::Pg(vec![(1.0, 1.0), (1.0, 3.0), (3.0, 3.0), (3.0, 1.0)], vec![]),
        Shape::Pg(vec![(0.0, 0.0), (4.0, 0.0), (4.0, 4.0), (0.0, 4.0)], vec![vec![(1.0, 1.0), (3.0, 1.0), (3.0, 3.0), (1.0, 3.0)]]),
        Shape::Pg(vec![(0.0, 0.0), (4.0, 0.0), (4.0, 4.0), (0.0, 4.0)], vec![vec![(0.5, 0.5), (0.5, 3.5), (3.5, 3.5), (3.5, 0.5)]]),
        Shape::Pg(
            vec![(0.0, 0.0), (8.0, 0.0), (8.0, 4.0), (0.0, 4.0)],
            vec![vec![(0.5, 0.5), (3.5, 0.5), (3.5, 3.5), (0.5, 3.5)], vec![(4.5, 0.5), (7.5, 0.5), (7.5, 3.5), (4.5, 3.5)]],
        ),
        Shape::Pg(vec![(0.0, 0.0), (4.0, 0.0), (4.0, 4.0), (0.0, 4.0)], vec![vec![(0.5, 0.5), (3.5, 0.5), (0.5, 3.5)]]),
        Shape::Pg(
            vec![(0.0, 0.0), (8.0, 0.0), (8.0, 4.0), (0.0, 4.0)],
            vec![
                vec![(0.25, 0.25), (0.5, 0.25), (0.25, 0.5)],
                vec![(0.75, 0.75), (3.25, 0.75), (3.25, 3.25), (0.75, 3.25)],
                vec![(4.0, 0.5), (7.0, 0.5), (7.5, 2.0), (5.5, 3.5), (3.5, 2.0)],
            ],
        ),
        Shape::Pg(vec![(0.0, 0.0), (4.0, 0.0), (4.0, 1.0), (1.0, 1.0), (1.0, 4.0), (0.0, 4.0)], vec![]),
        Shape::Pg(vec![(0.0, 0.0), (2.0, 1.0), (4.0, 0.0), (3.0, 2.0), (4.0, 4.0), (2.0, 3.0), (0.0, 4.0), (1.0, 2.0)], vec![]),
    ]);
    v
}

fn pair_code(a: &Shape, b: &Shape, call: &str) -> String {
    format!(
        "use geo::{{Line, LineString, Point, Polygon, Rect, coord}};\nuse quadtree::*;\n#[test]\nfn replay() {{\n    let a: Geometry<f64> = {};\n    let b: Geometry<f64> = {};\n    println!(\"{{:?}}\", {call});\n}}\n",
        a.code(),
        b.code()
    )
}

/// The distance of two geometries through every path the API offers: by wrapper and bare types.
fn all_euclid(a: &Geometry<f64>, b: &Geometry<f64>) -> Vec<(String, f64)> {
    let (ra, rb) = (a.as_geom(), b.as_geom());
    let mut v = vec![
        ("Geometry-Geometry".into(), a.dist_euclidean(b)),
        ("Geometry-GeometryRef".into(), a.dist_euclidean(&rb)),
        ("GeometryRef-Geometry".into(), ra.dist_euclidean(b)),
        ("GeometryRef-GeometryRef".into(), ra.dist_euclidean(&rb)),
        ("with_calc Geometry".into(), a.with_calc(CalcMethod::Euclidean).dist_geom(&rb).unwrap_or(f64::NAN)),
        ("with_calc GeometryRef".into(), ra.with_calc(CalcMethod::Euclidean).dist_geom(&rb).unwrap_or(f64::NAN)),
        ("into_calc".into(), ra.into_calc(CalcMethod::Euclidean).dist_geom(&rb).unwrap_or(f64::NAN)),
    ];
    macro_rules! bare {
        ($($k:ident),*) => { match a { $(Geometry::$k(x) => {
            v.push((concat!("bare ", stringify!($k), "-GeometryRef").into(), x.dist_euclidean(&rb)));
            v.push((concat!("bare ", stringify!($k), "-Geometry").into(), x.dist_euclidean(b)));
            v.push((concat!("with_calc bare ", stringify!($k)).into(), x.with_calc(CalcMethod::Euclidean).dist_geom(&rb).unwrap_or(f64::NAN)));
        })* } }
    }
    bare!(Point, Line, LineString, Polygon, Rect);
    if let Geometry::Rect(r) = b {
        v.push(("with_calc to bbox".into(), a.with_calc(CalcMethod::Euclidean).dist_bbox(r).unwrap_or(f64::NAN)));
    }
    if let (Geometry::Rect(r), Geometry::Rect(s)) = (a, b) {
        v.push(("dist_rect_rect".into(), quadtree::euclidean::math::dist_rect_rect(r, s)));
    }
    v
}

fn all_haversine(a: &Geometry<f64>, b: &Geometry<f64>) -> Vec<(String, Result<f64, Error>)> {
    let (ra, rb) = (a.as_geom(), b.as_geom());
    let mut v = vec![
        ("Geometry-Geometry".into(), a.dist_haversine(b)),
        ("Geometry-GeometryRef".into(), a.dist_haversine(&rb)),
        ("GeometryRef-Geometry".into(), ra.dist_haversine(b)),
        ("GeometryRef-GeometryRef".into(), ra.dist_haversine(&rb)),
        ("with_calc Geometry".into(), a.with_calc(CalcMethod::Spherical).dist_geom(&rb)),
        ("with_calc GeometryRef".into(), ra.with_calc(CalcMethod::Spherical).dist_geom(&rb)),
    ];
    macro_rules! bare {
        ($($k:ident),*) => { match a { $(Geometry::$k(x) => {
            v.push((concat!("bare ", stringify!($k), "-GeometryRef").into(), x.dist_haversine(&rb)));
            v.push((concat!("bare ", stringify!($k), "-Geometry").into(), x.dist_haversine(b)));
            v.push((concat!("with_calc bare ", stringify!($k)).into(), x.with_calc(CalcMethod::Spherical).dist_geom(&rb)));
        })* } }
    }
    bare!(Point, Line, LineString, Polygon, Rect);
    use quadtree::spherical::math as m;
    match (a, b) {
        (Geometry::Point(p), Geometry::Point(d)) => v.push(("dist_pt_pt".into(), Ok(m::dist_pt_pt(p, d)))),
        (Geometry::Point(p), Geometry::Line(d)) => v.push(("dist_pt_line".into(), Ok(m::dist_pt_line(p, d)))),
        (Geometry::Point(p), Geometry::LineString(d)) => v.push(("dist_pt_linestring".into(), Ok(m::dist_pt_linestring(p, d)))),
        (Geometry::Point(p), Geometry::Polygon(d)) => v.push(("dist_pt_poly".into(), Ok(m::dist_pt_poly(p, d)))),
        (Geometry::Point(p), Geometry::Rect(d)) => v.push(("dist_pt_rect".into(), Ok(m::dist_pt_rect(p, d)))),
        (Geometry::Rect(p), Geometry::Rect(d)) => v.push(("dist_rect_rect".into(), Ok(m::dist_rect_rect(p, d)))),
        _ => {}
    }
    v
}

fn hash_pair(w: u64, i: usize, j: usize) -> u64 {
    let mut h = H::new();
    h.add(w);
    h.add(i as u64);
    h.add(j as u64);
    h.0
}

/// Pairs (first from `a`, second from `b`), all paths when `paths`.
fn euclid_pairs(name: &str, a: Vec<Shape>, b: Vec<Shape>, f: Frame, exact: bool, paths: bool) -> Space {
    let fa: Vec<(Shape, Geometry<f64>)> = a.iter().map(|s| (f.s(s), f.s(s).geom())).collect();
    let fb: Vec<(Shape, Geometry<f64>)> = b.iter().map(|s| (f.s(s), f.s(s).geom())).collect();
    let scale = fa.iter().chain(&fb).flat_map(|s| s.0.verts()).map(|c| c.0.abs().max(c.1.abs())).fold(f64::MIN_POSITIVE, f64::max);
    let tol = 1e-12 * scale;
    let what = format!(
        "every ordered pair of {} x {} grid shapes in frame {:?}{}",
        fa.len(),
        fb.len(),
        f,
        if paths { ", through every wrapper type and both argument orders" } else { ", both argument orders" }
    );
    Space::new(name, what, fa.len(), move |i, sink| {
        let (sa, ga) = &fa[i];
        for (j, (sb, gb)) in fb.iter().enumerate() {
            let want = dist_e(sa, sb);
            sink.at(|| format!("planar distance of {sa:?} and {sb:?}"));
            let mut got = if paths { all_euclid(ga, gb) } else { vec![("GeometryRef-GeometryRef".to_string(), ga.as_geom().dist_euclidean(&gb.as_geom()))] };
            let n = got.len();
            if paths {
                got.extend(all_euclid(gb, ga).into_iter().map(|(k, v)| (format!("reversed {k}"), v)));
            } else {
                got.push(("reversed GeometryRef-GeometryRef".into(), gb.as_geom().dist_euclidean(&ga.as_geom())));
            }
            sink.evals += 1;
            sink.traces += 1;
            sink.transitions += got.len() as u64;
            sink.states.insert(hash_pair(0, i, j));
            sink.out(if want == 0.0 { "touch" } else { "apart" });
            if want > 0.0 {
                sink.nontrivial += 1;
            }
            let mut r = Ok(());
            for (path, d) in &got {
                let zero_ok = !exact || (*d == 0.0) == (want == 0.0);
                if !((d - want).abs() <= tol && *d >= 0.0 && zero_ok) {
                    r = Err(format!("{path}: planar distance of {sa:?} and {sb:?} is {d}, expected {want}"));
                    break;
                }
            }
            let _ = n;
            sink.judge(r, || (format!("{sa:?} / {sb:?}"), pair_code(sa, sb, "(a.dist_euclidean(&b), b.dist_euclidean(&a))")))?;
        }
        if i == fa.len() / 2 {
            sink.sample(|| format!("{sa:?} against {} shapes", fb.len()));
        }
        Ok(())
    })
}

/// All API paths for the pair against the reference, on coordinates where touching is decided exactly.
fn euc_case(sa: &Shape, sb: &Shape, sink: &mut Sink) -> Res {
    let (ga, gb) = (sa.geom(), sb.geom());
    let want = dist_e(sa, sb);
    sink.at(|| format!("planar distance of {sa:?} and {sb:?}"));
    let mut got = all_euclid(&ga, &gb);
    got.extend(all_euclid(&gb, &ga).into_iter().map(|(k, v)| (format!("reversed {k}"), v)));
    sink.evals += 1;
    sink.traces += 1;
    sink.transitions += got.len() as u64;
    sink.out(if want == 0.0 { "touch" } else { "apart" });
    if want > 0.0 {
        sink.nontrivial += 1;
    }
    let bad = got.iter().find(|(_, d)| !((d - want).abs() <= 1e-11 && *d >= 0.0 && (*d == 0.0) == (want == 0.0)));
    let r = match bad {
        None => Ok(()),
        Some((path, d)) => Err(format!("{path}: planar distance of {sa:?} and {sb:?} is {d}, expected {want}")),
    };
    sink.judge(r, || (format!("{sa:?} / {sb:?}"), pair_code(sa, sb, "(a.dist_euclidean(&b), b.dist_euclidean(&a))")))
}

pub fn c12(tier: Tier) -> Vec<Space> {
    let p = pool(tier);
    let small: Vec<Shape> = p.iter().enumerate().filter(|(i, s)| i % (if tier == Tier::Quick { 3 } else { 5 }) == 0 || matches!(s, Shape::Pg(..))).map(|x| x.1.clone()).collect();
    let mut v = vec![
        euclid_pairs("paths", small.clone(), small.clone(), Frame::ID, true, true),
        euclid_pairs("grid", p.clone(), p.clone(), Frame::ID, true, false),
        euclid_pairs("grid-shifted", p.clone(), p.iter().map(|s| s.map(&|c| (c.0 + 5.5, c.1 - 2.5))).collect(), Frame::new(-3.0, 10.0, 2.0, 0.5), true, false),
        euclid_pairs("grid-swapped", p.clone(), p.iter().map(|s| s.map(&|c| (c.1 - 3.0, c.0 - 3.0))).collect(), Frame::new(-0.125, -7.0, -0.5, 0.25), true, false),
        euclid_pairs("grid-inexact", small.clone(), p.clone(), Frame::new(0.1, -1000.3, 0.3, 1.7), false, false),
        euclid_pairs("grid-tiny", small.clone(), small.clone(), Frame::new(0.0, 0.0, 1e-6, 1e-6), false, false),
        euclid_pairs("grid-minute", small.clone(), small.clone(), Frame::new(0.0, 0.0, 0.5f64.powi(40), 0.5f64.powi(40)), true, false),
        euclid_pairs("grid-atomic", small.clone(), small.clone(), Frame::new(0.0, 0.0, 0.5f64.powi(200), 0.5f64.powi(200)), true, false),
        euclid_pairs("grid-vast", small.clone(), small.clone(), Frame::new(0.0, 0.0, 2f64.powi(200), 2f64.powi(200)), true, false),
        euclid_pairs("catalog", catalog::data(tier), catalog::comparators(tier), Frame::ID, true, false),
        euclid_pairs("catalog-apart", catalog::data(tier), catalog::comparators(tier).iter().map(|s| s.map(&|c| (c.0 + 6.5, c.1 - 3.0))).collect(), Frame::new(-3.0, 10.0, 2.0, 0.5), true, false),
        euclid_pairs("grid-far", small.clone(), small.clone(), Frame::new(5e8, -3e8, 1024.0, 512.0), true, false),
    ];
    v.push(f32_pairs("grid-f32", small.clone()));
    let zs = [zeros::points(2.0), zeros::shapes(2.0)].concat();
    v.push(euclid_pairs("zeros", zs.clone(), zs, Frame::ID, true, true));
    v.push(rect_as_polygon(tier));
    v.push(vertices::distances(tier, Frame::ID, euc_case));
    v
}

fn g32(s: &Shape) -> Geometry<f32> {
    fn c(c: C) -> Coord<f32> {
        Coord { x: c.0 as f32, y: c.1 as f32 }
    }
    fn l(v: &[C]) -> LineString<f32> {
        LineString::new(v.iter().map(|x| c(*x)).collect())
    }
    match s {
        Shape::Pt(p) => Geometry::Point(Point(c(*p))),
        Shape::Ln(a, b) => Geometry::Line(Line::new(c(*a), c(*b))),
        Shape::Ls(v) => Geometry::LineString(l(v)),
        Shape::Pg(e, h) => Geometry::Polygon(Polygon::new(l(e), h.iter().map(|r| l(r)).collect())),
        Shape::Rc(a, b) => Geometry::Rect(Rect::new(c(*a), c(*b))),
    }
}

fn f32_pairs(name: &str, p: Vec<Shape>) -> Space {
    Space::new(name, format!("every ordered pair of {} grid shapes in f32", p.len()), p.len(), move |i, sink| {
        for (j, b) in p.iter().enumerate() {
            let a = &p[i];
            let want = dist_e(a, b);
            sink.at(|| format!("f32 planar distance of {a:?} and {b:?}"));
            let d = g32(a).dist_euclidean(&g32(b)) as f64;
            sink.evals += 1;
            sink.transitions += 1;
            sink.traces += 1;
            sink.states.insert(hash_pair(1, i, j));
            let r = if (d - want).abs() <= 1e-5 && d >= 0.0 && (d == 0.0) == (want == 0.0) { Ok(()) } else { Err(format!("f32 planar distance of {a:?} and {b:?} is {d}, expected {want}")) };
            sink.judge(r, || (format!("f32 {a:?} / {b:?}"), pair_code(a, b, "a.dist_euclidean(&b) // in f32")))?;
        }
        Ok(())
    })
}

/// A rectangle measures like the polygon with its corners.
fn rect_as_polygon(tier: Tier) -> Space {
    let p = pool(tier);
    let rects: Vec<Shape> = p.iter().filter(|s| matches!(s, Shape::Rc(..))).cloned().collect();
    let n = rects.len();
    Space::new("rect-as-polygon", format!("{n} rectangles, degenerate ones included, against {} shapes, compared with the polygon of their corners", p.len()), n, move |i, sink| {
        let Shape::Rc(a, b) = &rects[i] else { unreachable!() };
        let (gr, poly) = (rects[i].geom(), Shape::Pg(vec![*a, (b.0, a.1), *b, (a.0, b.1)], vec![]).geom());
        for s in &p {
            sink.at(|| format!("planar distance of {:?} as rect and polygon to {s:?}", rects[i]));
            let g = s.geom();
            let (x, y) = (gr.dist_euclidean(&g), poly.dist_euclidean(&g));
            let (x2, y2) = (g.dist_euclidean(&gr), g.dist_euclidean(&poly));
            sink.evals += 1;
            sink.transitions += 4;
            let ok = (x - y).abs() <= 1e-12 && (x2 - y2).abs() <= 1e-12;
            let r = if ok { Ok(()) } else { Err(format!("{:?} to {s:?}: {x} / {x2}, but its polygon {y} / {y2}", rects[i])) };
            sink.judge(r, || (format!("{:?} / {s:?}", rects[i]), pair_code(&rects[i], s, "a.dist_euclidean(&b)")))?;
        }
        Ok(())
    })
}

// ---------------------------------------------------------------- sphere

use std::f64::consts::{FRAC_PI_2, PI, TAU};

fn globe_pts(nx: usize, ny: usize) -> Vec<Shape> {
    let mut v = vec![];
    for i in 0..nx {
        for j in 0..ny {
            let x = if i == nx - 1 { PI } else { -PI + TAU * i as f64 / (nx - 1) as f64 };
            let y = if j == ny - 1 { FRAC_PI_2 } else { -FRAC_PI_2 + PI * j as f64 / (ny - 1) as f64 };
            v.push(pt(x, y));
        }
    }
    v
}

fn globe_axis(xs: &[f64], ys: &[f64]) -> Vec<C> {
    xs.iter().flat_map(|x| ys.iter().map(|y| (*x, *y))).collect()
}

fn globe_shapes(tier: Tier) -> Vec<Shape> {
    let q = tier == Tier::Quick;
    let mut v = vec![];
    let xs: &[f64] = if q { &[-PI, -2.9, -0.4, 0.3, PI] } else { &[-PI, -2.9, -1.5, -0.4, 0.3, 1.2, 2.8, PI] };
    let ys: &[f64] = if q { &[-FRAC_PI_2, -0.2, 0.7, 1.45, FRAC_PI_2] } else { &[-FRAC_PI_2, -1.3, -0.6, 0.0, 0.7, 1.45, FRAC_PI_2] };
    let cs = globe_axis(xs, ys);
    for (i, a) in cs.iter().enumerate() {
        for (j, b) in cs.iter().enumerate() {
            if a.0 <= b.0 && a.1 <= b.1 {
                v.push(Shape::Rc(*a, *b));
            }
            if (i + 3 * j) % (if q { 4 } else { 7 }) == 0 {
                v.push(Shape::Ln(*a, *b));
            }
            if (i + j) % (if q { 17 } else { 31 }) == 0 && i != j {
                let c = cs[(i * 7 + j * 3 + 1) % cs.len()];
                v.push(Shape::Ls(vec![*a, *b, c]));
                let area = (b.0 - a.0) * (c.1 - a.1) - (b.1 - a.1) * (c.0 - a.0);
                if area.abs() > 1e-9 {
                    v.push(Shape::Pg(vec![*a, *b, c], vec![]));
                }
            }
        }
    }
    v.extend([
        Shape::Pg(vec![(-3.0, 0.2), (3.0, 0.2), (3.0, 1.5), (-3.0, 1.5)], vec![vec![(-2.0, 0.5), (2.0, 0.5), (2.0, 1.3), (-2.0, 1.3)]]),
        Shape::Pg(vec![(-1.0, -1.0), (1.0, -1.0), (1.0, 1.0), (-1.0, 1.0)], vec![vec![(-0.8, -0.8), (-0.1, -0.8), (-0.1, 0.8), (-0.8, 0.8)], vec![(0.1, -0.8), (0.8, -0.8), (0.8, 0.8), (0.1, 0.8)]]),
        Shape::Pg(
            vec![(-1.5, -1.0), (1.5, -1.0), (1.5, 1.0), (-1.5, 1.0)],
            vec![
                vec![(-1.25, -0.75), (-1.0, -0.75), (-1.25, -0.5)],
                vec![(0.0, -0.75), (1.25, -0.5), (1.25, 0.5), (0.5, 0.75), (0.0, 0.5)],
                vec![(-1.25, -0.25), (-0.25, -0.25), (-0.25, 0.75), (-1.25, 0.75)],
            ],
        ),
        Shape::Ls(vec![(0.0, 0.0), (0.5, 0.5), (1.0, 0.0), (1.5, 0.5), (2.0, 0.0), (2.0, 1.0)]),
        Shape::Ln((0.5, 0.5), (0.5, 0.5)),
    ]);
    v
}

/// Is the distance zero without any rounding: boxes in contact, positions in or on the edges of
/// boxes, on the upright edges of polygons or well inside them?
fn plainly_zero(a: &Shape, b: &Shape) -> bool {
    match (a, b) {
        (Shape::Pt(p), Shape::Pt(q)) => p == q,
        (Shape::Pt(_) | Shape::Rc(..), Shape::Pt(_) | Shape::Rc(..)) => a.bbox().unwrap().touches(&b.bbox().unwrap()),
        (Shape::Pt(p), Shape::Pg(e, hs)) => {
            let mut near = f64::INFINITY;
            for r in std::iter::once(e).chain(hs) {
                for i in 0..r.len() {
                    let (s, t) = (r[i], r[(i + 1) % r.len()]);
                    if (s.0 == t.0 || s.1 == t.1) && (s.0.min(t.0)..=s.0.max(t.0)).contains(&p.0) && (s.1.min(t.1)..=s.1.max(t.1)).contains(&p.1) {
                        return true;
                    }
                    near = near.min(dist_e(a, &Shape::Ln(s, t)));
                }
            }
            near > 1e-6 && b.covers_pt(*p)
        }
        (Shape::Pg(..), Shape::Pt(_)) => plainly_zero(b, a),
        _ => false,
    }
}

/// Compare all API paths for the pair with the reference.
fn hav_case(sa: &Shape, sb: &Shape, sink: &mut Sink) -> Res {
    let (ga, gb) = (sa.geom(), sb.geom());
    let want = dist_s(sa, sb);
    sink.at(|| format!("spherical distance of {sa:?} and {sb:?}"));
    let mut got = all_haversine(&ga, &gb);
    got.extend(all_haversine(&gb, &ga).into_iter().map(|(k, v)| (format!("reversed {k}"), v)));
    sink.evals += 1;
    sink.traces += 1;
    sink.transitions += got.len() as u64;
    sink.out(match want {
        None => "unsupported",
        Some(0.0) => "zero",
        Some(d) if d > 3.1 => "nearly antipodal",
        Some(_) => "apart",
    });
    if want.is_some_and(|w| w > 0.0) {
        sink.nontrivial += 1;
    }
    let mut r = Ok(());
    let exact = want == Some(0.0) && plainly_zero(sa, sb);
    for (path, d) in &got {
        let ok = match (d, want) {
            (Err(Error::InvalidDistance), None) => true,
            (Ok(d), _) if exact => *d == 0.0,
            (Ok(d), Some(w)) => (d - w).abs() <= sphere_tol(w) && *d >= 0.0 && *d <= PI + 1e-12,
            _ => false,
        };
        if !ok {
            r = Err(format!("{path}: spherical distance of {sa:?} and {sb:?} is {d:?}, expected {want:?} (None: InvalidDistance)"));
            break;
        }
    }
    sink.judge(r, || (format!("{sa:?} / {sb:?}"), pair_code(sa, sb, "(a.dist_haversine(&b), b.dist_haversine(&a))")))
}

/// Positions opposite each other, give or take a few units in the last place: what the sphere
/// allows at most, however the terms of the formula are rounded.
fn opposite(tier: Tier) -> Space {
    let mut at: Vec<C> = vec![];
    // Known to have rounded beyond one, with all their neighbours
    at.extend(OVER);
    let n = if tier == Tier::Quick { 60 } else { 400 };
    for i in 0..n {
        for j in 0..10 {
            at.push((0.05 + 0.3 * i as f64 / n as f64 - 0.03 * j as f64, 0.95 + (i as f64 + 0.1 * j as f64) * 0.15 / n as f64));
        }
    }
    let what = format!("{} positions, each against the one opposite with either coordinate moved by up to 9 units in the last place, in f64 and f32", at.len());
    let nudge = |x: f64, k: i64| f64::from_bits((x.to_bits() as i64 + k) as u64);
    let nudge32 = |x: f32, k: i64| f32::from_bits((x.to_bits() as i64 + k) as u32);
    Space::cases("opposite", &what, at, move |(x, y), sink| {
        let l = if *x > 0.0 { x - PI } else { x + PI };
        for i in -9..=9 {
            for j in -9..=9 {
                let (a, b) = (Point::new(*x, *y), Point::new(nudge(l, i), -nudge(*y, j)));
                let (a3, b3) = (Point::new(*x as f32, *y as f32), Point::new(nudge32(l as f32, i), -nudge32(*y as f32, j)));
                sink.at(|| format!("spherical distances of {a:?} and {b:?}"));
                let (d, e) = (a.dist_haversine(&b.as_geom()), b.dist_haversine(&a.as_geom()));
                let (d3, e3) = (a3.dist_haversine(&b3.as_geom()), b3.dist_haversine(&a3.as_geom()));
                sink.evals += 1;
                sink.traces += 1;
                sink.transitions += 4;
                sink.nontrivial += 1;
                let ok = |d: &Result<f64, Error>| d.as_ref().is_ok_and(|d| *d >= PI - 1.5e-7 && *d <= PI + 1e-12);
                let ok3 = |d: &Result<f32, Error>| d.as_ref().is_ok_and(|d| *d >= 3.138 && *d <= 3.1416);
                let r = if !ok(&d) || !ok(&e) {
                    Err(format!("{a:?} and {b:?} are opposite each other but {d:?} and {e:?} apart"))
                } else if !ok3(&d3) || !ok3(&e3) {
                    Err(format!("{a3:?} and {b3:?} are opposite each other but {d3:?} and {e3:?} apart in f32"))
                } else {
                    Ok(())
                };
                sink.judge(r, || (format!("{a:?} / {b:?}"), pair_code(&pt(a.x(), a.y()), &pt(b.x(), b.y()), "a.dist_haversine(&b)")))?;
            }
        }
        sink.out("opposite");
        Ok(())
    })
}

const OVER: [C; 1] = [(0.05827951619861641, 1.0027726897950062)];

/// On single precision, against the reference for the very same coordinates.
fn sphere_f32(name: &str, a: Vec<Shape>, b: Vec<Shape>) -> Space {
    let snap = |v: Vec<Shape>| -> Vec<Shape> { v.iter().map(|s| s.map(&|c| (c.0 as f32 as f64, c.1 as f32 as f64))).collect() };
    let (a, b) = (snap(a), snap(b));
    let what = format!("{} positions and shapes against {} in f32, either way round", a.len(), b.len());
    Space::new(name, what, a.len(), move |i, sink| {
        let ga = g32(&a[i]);
        for (j, s) in b.iter().enumerate() {
            let gb = g32(s);
            let want = dist_s(&a[i], s);
            sink.at(|| format!("f32 spherical distance of {:?} and {s:?}", a[i]));
            let got = [ga.dist_haversine(&gb), gb.dist_haversine(&ga), ga.with_calc(CalcMethod::Spherical).dist_geom(&gb.as_geom())];
            sink.evals += 1;
            sink.traces += 1;
            sink.transitions += 3;
            sink.states.insert(hash_pair(400, i, j));
            sink.out(match want {
                None => "unsupported",
                Some(0.0) => "zero",
                Some(_) => "apart",
            });
            sink.nontrivial += want.is_some_and(|w| w > 0.0) as u64;
            let flat = matches!((&a[i], s), (Shape::Pt(_) | Shape::Rc(..), Shape::Pt(_) | Shape::Rc(..)));
            let ok = got.iter().all(|d| match (d, want) {
                (Err(Error::InvalidDistance), None) => true,
                (Ok(d), Some(w)) => {
                    let d = *d as f64;
                    let tol = 2e-6 + 4e-7 / (w / 2.0).cos().abs().max(2e-4);
                    (d - w).abs() <= tol && d >= 0.0 && d <= PI + 1e-6 && (!flat || w != 0.0 || d == 0.0)
                }
                _ => false,
            });
            let r = if ok { Ok(()) } else { Err(format!("f32 spherical distance of {:?} and {s:?} is {got:?}, in f64 {want:?} (None: InvalidDistance)", a[i])) };
            sink.judge(r, || (format!("f32 {:?} / {s:?}", a[i]), pair_code(&a[i], s, "(a.dist_haversine(&b), b.dist_haversine(&a)) // in f32")))?;
        }
        Ok(())
    })
}

fn turned_boxes(tier: Tier) -> Vec<B> {
    let q = tier == Tier::Quick;
    let mut v = vec![];
    let ys: &[f64] = if q { &[-FRAC_PI_2, -0.5, 1.5, 1.5705, FRAC_PI_2] } else { &[-FRAC_PI_2, -1.57079, -1.5705, -1.5, -0.5, 0.0, 1.0, 1.5, 1.57, 1.5705, 1.57079, FRAC_PI_2] };
    for (x1, x2) in [(0.2, 0.3), (-PI, -3.0), (2.0, 2.0), (-PI, 0.0)] {
        for (k, y1) in ys.iter().enumerate() {
            for y2 in &ys[k..] {
                v.push(B::new(x1, *y1, x2, *y2));
            }
        }
    }
    for gap in if q { vec![0.5, 0.05, 0.005, 1e-4, 0.0] } else { vec![1.0, 0.5, 0.2, 0.05, 0.02, 0.005, 1e-3, 1e-4, 1e-6, 0.0] } {
        for (x1, x2) in [(-PI + gap, PI), (-PI, PI - gap), (-PI + gap, PI - gap)] {
            for (y1, y2) in [(0.4, 1.2), (-1.5, -1.0), (-0.3, 0.3), (-1.0, FRAC_PI_2), (0.7, 0.7)] {
                v.push(B::new(x1, y1, x2, y2));
            }
        }
    }
    v
}

fn turned_offsets(tier: Tier) -> Vec<f64> {
    let mut v = vec![];
    for t in [0.0, FRAC_PI_2, PI, 1.5 * PI] {
        v.push(t);
        for e in if tier == Tier::Quick { vec![0.1, 1e-2, 1e-4] } else { vec![0.3, 0.1, 0.03, 1e-2, 3e-3, 1e-3, 1e-4, 1e-5, 1e-6] } {
            v.extend([t + e, t - e]);
        }
    }
    v
}

fn turned_positions(b: &B, off: &[f64]) -> Vec<C> {
    let mut v = vec![];
    for x in [b.x1, b.x2] {
        for o in off {
            let mut l = x + o;
            if l > PI {
                l -= TAU;
            }
            if !(-PI..=PI).contains(&l) {
                continue;
            }
            for y in [-FRAC_PI_2, -1.5, -1.0, -1e-3, 0.0, 0.5, 1.25, 1.57, FRAC_PI_2] {
                v.push((l, y));
            }
        }
    }
    v
}

pub fn c13(tier: Tier) -> Vec<Space> {
    let q = tier == Tier::Quick;
    let mut v = vec![];
    let (nx, ny) = if q { (17, 13) } else { (33, 25) };
    let pts = globe_pts(nx, ny);
    // Point pairs, dense; haversine loses precision near antipodes
    let p2 = pts.clone();
    v.push(Space::new("pt-pt", format!("every ordered pair of {} lattice positions, poles and antimeridian included", pts.len()), pts.len(), move |i, sink| {
        for (j, b) in p2.iter().enumerate() {
            sink.states.insert(hash_pair(0, i, j));
            hav_case(&p2[i], b, sink)?;
        }
        Ok(())
    }));
    // Antipodal and nearly coincident pairs on a fine lattice
    let n = if q { 400 } else { 2000 };
    v.push(Space::new("pt-antipode", format!("{n} x 80 positions with their antipode and their nearest neighbours"), n, move |i, sink| {
        for j in 0..80usize {
            let (x, y) = (-PI + TAU * (i as f64 + 0.37) / n as f64, -FRAC_PI_2 + PI * (j as f64 + 0.43) / 80.0);
            let ax = if x > 0.0 { x - PI } else { x + PI };
            for o in [(ax, -y), (x, y), (x + 1e-6, y), (x, y - 1e-6), (ax, y), (x, -y)] {
                sink.states.insert(hash_pair(1, i, j));
                hav_case(&pt(x, y), &pt(o.0, o.1), sink)?;
            }
        }
        Ok(())
    }));
    // Full turns
    let p3 = globe_pts(9, 7);
    v.push(Space::new("full-turns", "every ordered pair of 63 lattice positions with -2..=2 turns added to one longitude".to_string(), p3.len(), move |i, sink| {
        for (j, b) in p3.iter().enumerate() {
            for k in -2i32..=2 {
                let (Shape::Pt(a), Shape::Pt(b)) = (&p3[i], b) else { unreachable!() };
                sink.states.insert(hash_pair(2 + (k + 2) as u64, i, j));
                hav_case(&pt(a.0 + TAU * k as f64, a.1), &pt(b.0, b.1), sink)?;
            }
        }
        Ok(())
    }));
    v.push(opposite(tier));
    let mut ps = globe_pts(13, 9);
    ps.extend(globe_pts(9, 7).iter().map(|s| s.map(&|c| (c.0 * 0.93 + 0.05, c.1 * 0.91 - 0.03))));
    // Opposites
    for i in 0..ps.len() {
        if let Shape::Pt(c) = ps[i].clone() {
            let l = if c.0 > 0.0 { c.0 - PI } else { c.0 + PI };
            for e in [0.0, 1e-6, 1e-3, 0.01] {
                let y = if c.1 > 0.0 { -c.1 + e } else { -c.1 - e };
                ps.push(pt(l, y));
            }
        }
    }
    let gs = globe_shapes(tier);
    v.push(sphere_f32("f32-pt-pt", ps.clone(), ps.clone()));
    v.push(sphere_f32("f32-pt-shape", gs.clone(), ps[..180].to_vec()));
    let rects: Vec<Shape> = gs.iter().filter(|s| matches!(s, Shape::Rc(..))).cloned().collect();
    v.push(sphere_f32("f32-rects", rects.clone(), rects));
    let shapes = Arc::new(gs);
    let (s1, p4) = (shapes.clone(), globe_pts(if q { 13 } else { 25 }, if q { 9 } else { 17 }));
    let off: Vec<Shape> = p4.iter().map(|s| s.map(&|c| (c.0 * 0.93 + 0.05, c.1 * 0.91 - 0.03))).collect();
    let p4: Vec<Shape> = p4.into_iter().chain(off).collect();
    v.push(Space::new("pt-shape", format!("{} positions against {} lines, linestrings, polygons and rectangles", p4.len(), shapes.len()), shapes.len(), move |i, sink| {
        for (j, p) in p4.iter().enumerate() {
            sink.states.insert(hash_pair(9, i, j));
            hav_case(p, &s1[i], sink)?;
        }
        if i % 50 == 0 {
            sink.sample(|| format!("{:?} against {} positions", s1[i], p4.len()));
        }
        Ok(())
    }));
    let s2 = shapes.clone();
    v.push(Space::new("shape-shape", format!("every ordered pair of {} lines, linestrings, polygons and rectangles", shapes.len()), shapes.len(), move |i, sink| {
        for (j, b) in s2.iter().enumerate() {
            sink.states.insert(hash_pair(10, i, j));
            let both = matches!((&s2[i], b), (Shape::Rc(..), Shape::Rc(..)));
            // All rect pairs; of the unsupported pairs a third
            if both || (i + j) % 3 == 0 {
                hav_case(&s2[i], b, sink)?;
            }
        }
        Ok(())
    }));
    // Small rectangles in a city-sized frame and at high latitude
    let mut small = vec![];
    for a in globe_axis(&[0.0, 1.0, 2.0, 3.0], &[0.0, 1.0, 2.0, 3.0]) {
        for b in globe_axis(&[0.0, 1.0, 2.0, 3.0], &[0.0, 1.0, 2.0, 3.0]) {
            if a.0 <= b.0 && a.1 <= b.1 {
                small.push(Shape::Rc(a, b));
            }
        }
    }
    small.extend(globe_axis(&[-1.0, 0.0, 0.5, 1.5, 3.0, 4.0], &[-1.0, 0.0, 0.5, 1.5, 3.0, 4.0]).into_iter().map(Shape::Pt));
    for (k, f) in [Frame::new(0.3, 0.9, 1.0 / 64.0, 1.0 / 64.0), Frame::new(-3.1, 1.4, 0.03125, 0.03125), Frame::new(2.0, -0.5, 0.25, 0.25)].into_iter().enumerate() {
        let sm: Vec<Shape> = small.iter().map(|s| f.s(s)).collect();
        v.push(Space::new(format!("small-{k}"), format!("every ordered pair of {} rectangles and positions in frame {f:?}", sm.len()), sm.len(), move |i, sink| {
            for (j, b) in sm.iter().enumerate() {
                sink.states.insert(hash_pair(11 + k as u64, i, j));
                hav_case(&sm[i], b, sink)?;
            }
            Ok(())
        }));
    }
    v.push(vertices::distances(tier, Frame::new(-1.0, -0.25, 0.25, 0.125), hav_case));
    // Shapes that fill, border or surround cells of several bounds
    let ps = [lattice(if q { 9 } else { 17 }, 0.0, 8.0), lattice(5, 0.3, 7.9)].concat();
    let ds = catalog::data(tier);
    for (k, b) in super::search::globe_bounds().into_iter().enumerate().filter(|x| !q || x.0 % 2 == 0) {
        let (ps, ds) = (super::search::on_globe(b, &ps), super::search::on_globe(b, &ds));
        v.push(Space::new(format!("catalog-{k}"), format!("{} positions against {} shapes of the catalogue", ps.len(), ds.len()), ds.len(), move |i, sink| {
            for (j, p) in ps.iter().enumerate() {
                sink.states.insert(hash_pair(420 + k as u64, i, j));
                hav_case(p, &ds[i], sink)?;
            }
            Ok(())
        }));
    }
    // Either zero: the prime meridian and the equator
    let zs = [zeros::points(0.125), zeros::shapes(0.125)].concat();
    v.push(Space::new("zeros", format!("every ordered pair of {} shapes with coordinates from -z, -0, 0, z", zs.len()), zs.len(), move |i, sink| {
        for (j, b) in zs.iter().enumerate() {
            let one = |s: &Shape| matches!(s, Shape::Pt(_));
            let rect = |s: &Shape| matches!(s, Shape::Rc(..));
            if one(&zs[i]) || one(b) || rect(&zs[i]) && rect(b) {
                sink.states.insert(hash_pair(400, i, j));
                hav_case(&zs[i], b, sink)?;
            }
        }
        Ok(())
    }));
    // A quarter, half and whole turn away, give or take a little, from boxes up to the poles or
    // all but round the globe
    let boxes = turned_boxes(tier);
    let off = turned_offsets(tier);
    v.push(Space::new("quarter-turns", format!("{} boxes reaching towards a pole or nearly round the globe, against positions {} longitudes away from either side at latitudes up to the poles", boxes.len(), off.len()), boxes.len(), move |i, sink| {
        let b = boxes[i];
        for (j, p) in turned_positions(&b, &off).into_iter().enumerate() {
            sink.states.insert(hash_pair(300, i, j));
            hav_case(&Shape::Pt(p), &b.shape(), sink)?;
        }
        Ok(())
    }));
    // So small that the sphere is flat: planar distances, to within a share of themselves
    for e in [26, 60, 100, 200] {
        let g = 0.5f64.powi(e);
        let f = Frame::new(0.0, 0.0, g, g);
        let mut shapes = small.clone();
        shapes.extend([
            ln(0.0, 0.0, 3.0, 0.0),
            ln(1.0, 0.0, 1.0, 3.0),
            ln(0.0, 0.0, 3.0, 3.0),
            ln(3.0, 1.0, 0.0, 2.0),
            ln(1.0, 1.0, 1.0, 1.0),
            Shape::Ls(vec![(0.0, 0.0), (3.0, 0.0), (3.0, 3.0), (0.0, 3.0)]),
            Shape::Ls(vec![(0.0, 3.0), (1.0, 0.0), (2.0, 3.0), (3.0, 0.0)]),
            Shape::Pg(vec![(0.0, 0.0), (3.0, 0.0), (0.0, 3.0)], vec![]),
            Shape::Pg(vec![(-1.0, -1.0), (4.0, -1.0), (4.0, 4.0), (-1.0, 4.0)], vec![vec![(0.0, 0.0), (3.0, 0.0), (3.0, 3.0)]]),
            Shape::Pg(vec![(-1.0, -1.0), (4.0, -1.0), (4.0, 4.0), (-1.0, 4.0)], vec![vec![(0.0, 0.0), (1.0, 0.0), (1.0, 1.0)], vec![(0.0, 2.0), (2.0, 2.0), (2.0, 3.0), (0.0, 3.0)]]),
        ]);
        let sm: Vec<Shape> = shapes.iter().map(|s| f.s(s)).collect();
        let every = if q { 3 } else { 1 };
        v.push(Space::new(format!("minute-2^-{e}"), format!("{} shapes in frame {f:?} with positions and rectangles", sm.len()), sm.len(), move |i, sink| {
            for (j, b) in sm.iter().enumerate() {
                // Which edges of two rectangles face each other is decided on wrapped longitudes,
                // which are only good to within the rounding of half a turn
                let rects = e < 40 && matches!((&sm[i], b), (Shape::Rc(..), Shape::Rc(..)));
                if !(matches!(b, Shape::Pt(_)) || rects && (i + j) % every == 0) {
                    continue;
                }
                sink.states.insert(hash_pair(100 + e as u64, i, j));
                let (ga, gb) = (sm[i].geom(), b.geom());
                let want = dist_e(&sm[i], b);
                sink.at(|| format!("spherical distance of {:?} and {b:?}", sm[i]));
                let mut got = all_haversine(&ga, &gb);
                got.extend(all_haversine(&gb, &ga).into_iter().map(|(k, v)| (format!("reversed {k}"), v)));
                sink.evals += 1;
                sink.traces += 1;
                sink.transitions += got.len() as u64;
                sink.out(if want == 0.0 { "zero" } else { "apart" });
                sink.nontrivial += (want > 0.0) as u64;
                let mut r = Ok(());
                for (path, d) in &got {
                    if !matches!(d, Ok(d) if *d >= 0.0 && (d - want).abs() <= want.max(g) * 1e-9) {
                        r = Err(format!("{path}: spherical distance of {:?} and {b:?} is {d:?}, expected {want:?}", sm[i]));
                        break;
                    }
                }
                sink.judge(r, || (format!("{:?} / {b:?}", sm[i]), pair_code(&sm[i], b, "(a.dist_haversine(&b), b.dist_haversine(&a))")))?;
            }
            Ok(())
        }));
    }
    v
}

// ---------------------------------------------------------------- C14

fn sub_shapes(b: &B) -> Vec<Shape> {
    let xs = [b.x1, b.x1 + (b.x2 - b.x1) * 0.25, b.x1 + (b.x2 - b.x1) * 0.75, b.x2];
    let ys = [b.y1, b.y1 + (b.y2 - b.y1) * 0.5, b.y2];
    let cs = globe_axis(&xs, &ys);
    let mut v: Vec<Shape> = cs.iter().map(|c| Shape::Pt(*c)).collect();
    for (i, a) in cs.iter().enumerate() {
        for (j, c) in cs.iter().enumerate() {
            if a.0 <= c.0 && a.1 <= c.1 {
                v.push(Shape::Rc(*a, *c));
            }
            if (i * 5 + j) % 3 == 0 {
                v.push(Shape::Ln(*a, *c));
            }
        }
    }
    v.push(Shape::Ls(vec![cs[0], cs[4], cs[11]]));
    v.push(Shape::Ls(vec![cs[2], cs[5], cs[9], cs[8]]));
    if b.x1 < b.x2 && b.y1 < b.y2 {
        v.push(Shape::Pg(vec![cs[0], cs[9], cs[11]], vec![]));
        v.push(Shape::Pg(vec![cs[0], cs[9], cs[11], cs[2]], vec![vec![cs[4], (cs[7].0, cs[7].1), (cs[7].0, (cs[7].1 + cs[8].1) / 2.0)]]));
    }
    v
}

fn bound_space(name: &str, calc: CalcMethod, boxes: Vec<B>, cmps: Vec<Shape>, tol: f64, exact: bool) -> Space {
    let what = format!("{} boxes with every point, line, linestring, polygon and rectangle from a 4x3 grid inside each, against {} comparators", boxes.len(), cmps.len());
    let cg: Vec<Geometry<f64>> = cmps.iter().map(|s| s.geom()).collect();
    Space::new(name, what, boxes.len(), move |i, sink| {
        let b = &boxes[i];
        let subs: Vec<(Shape, Geometry<f64>)> = sub_shapes(b).into_iter().map(|s| (s.clone(), s.geom())).collect();
        for (j, c) in cmps.iter().enumerate() {
            let calcd = cg[j].with_calc(calc);
            sink.at(|| format!("distance of {c:?} to box {b:?}"));
            let bd = calcd.dist_bbox(&b.rect());
            sink.states.insert(hash_pair(0, i, j));
            let supported = !matches!(calc, CalcMethod::Spherical) || matches!(c, Shape::Pt(_) | Shape::Rc(..));
            let mut r = Ok(());
            let d = match bd {
                Ok(d) if supported => d,
                Err(Error::InvalidDistance) if !supported => {
                    sink.out("unsupported");
                    continue;
                }
                other => {
                    sink.judge(Err(format!("{c:?} to box {b:?} gives {other:?}")), || (format!("{c:?} / {b:?}"), pair_code(c, &b.shape(), "a.with_calc(..)")))?;
                    continue;
                }
            };
            let tch = touch(c, &b.shape());
            if exact && tch != (d == 0.0) {
                r = Err(format!("{c:?} {} box {b:?} but its distance is {d}", if tch { "touches" } else { "does not touch" }));
            }
            sink.evals += 1;
            for (s, g) in &subs {
                sink.at(|| format!("distance of {c:?} to box {b:?} and to {s:?} in it"));
                let gd = calcd.dist_geom(&g.as_geom());
                sink.evals += 1;
                sink.transitions += 1;
                match gd {
                    Ok(gd) => {
                        if d > gd + tol {
                            r = Err(format!("{c:?} is {d} from box {b:?} but only {gd} from {s:?} inside it"));
                        }
                        if gd > d + tol {
                            sink.nontrivial += 1;
                        }
                    }
                    Err(_) if !supported || (matches!(calc, CalcMethod::Spherical) && !matches!(c, Shape::Pt(_)) && !matches!(s, Shape::Pt(_) | Shape::Rc(..))) => {}
                    Err(e) => r = Err(format!("{c:?} to {s:?} gives {e:?}")),
                }
                // A box inside is not closer than the enclosing one
                if let Some(sb) = s.bbox() {
                    match calcd.dist_bbox(&sb.rect()) {
                        Ok(x) if x + tol >= d => {}
                        Ok(x) => r = Err(format!("{c:?} is {d} from box {b:?} but only {x} from box {sb:?} inside it")),
                        Err(e) => r = Err(format!("{c:?} to box {sb:?} gives {e:?}")),
                    }
                    sink.transitions += 1;
                }
                if r.is_err() {
                    break;
                }
            }
            sink.traces += 1;
            sink.out(if d == 0.0 { "touching" } else { "apart" });
            sink.judge(r, || (format!("{c:?} / {b:?}"), pair_code(c, &b.shape(), &format!("a.with_calc(CalcMethod::{calc:?}).dist_bbox(&Rect::new(coord!{{x:{:?},y:{:?}}}, coord!{{x:{:?},y:{:?}}}))", b.x1, b.y1, b.x2, b.y2))))?;
        }
        Ok(())
    })
}

pub fn c14(tier: Tier) -> Vec<Space> {
    let q = tier == Tier::Quick;
    let mut v = vec![];
    let g: &[f64] = if q { &[0.0, 1.0, 4.0] } else { &[0.0, 1.0, 2.0, 4.0, 7.0] };
    let cs = globe_axis(g, g);
    let mut boxes = vec![];
    for a in &cs {
        for b in &cs {
            if a.0 <= b.0 && a.1 <= b.1 {
                boxes.push(B::new(a.0, a.1, b.0, b.1));
            }
        }
    }
    let mut cmps: Vec<Shape> = pool(Tier::Quick).iter().step_by(if q { 3 } else { 1 }).map(|s| s.map(&|c| (c.0 * 1.5 - 1.0, c.1 * 1.5 - 1.0))).collect();
    cmps.extend([pt(1.0, 1.0), pt(4.0, 0.0), rc(1.0, 1.0, 4.0, 4.0), rc(4.0, 4.0, 5.0, 6.0), ln(0.0, 4.0, 4.0, 0.0)]);
    v.push(bound_space("planar", CalcMethod::Euclidean, boxes.clone(), cmps.clone(), 1e-11, true));
    let f = Frame::new(-3.0, 10.0, 0.5, 8.0);
    v.push(bound_space("planar-frame", CalcMethod::Euclidean, boxes.iter().map(|b| f.b(*b)).collect(), cmps.iter().map(|s| f.s(s)).collect(), 1e-11, true));
    // Sphere: quadtree cells of several bounds, and odd boxes
    let mut sb = vec![];
    for b in super::search::globe_bounds() {
        for d in 0..(if q { 3 } else { 4 }) {
            let n = 1 << d;
            for i in 0..n {
                for j in 0..n {
                    if q && d == 2 && (i + j) % 2 == 1 {
                        continue;
                    }
                    let (w, h) = ((b.x2 - b.x1) / n as f64, (b.y2 - b.y1) / n as f64);
                    let x2 = if i == n - 1 { b.x2 } else { b.x1 + w * (i + 1) as f64 };
                    let y2 = if j == n - 1 { b.y2 } else { b.y1 + h * (j + 1) as f64 };
                    sb.push(B::new(b.x1 + w * i as f64, b.y1 + h * j as f64, x2, y2));
                }
            }
        }
    }
    sb.extend([B::new(0.5, 0.5, 0.5, 1.5), B::new(-3.0, 1.0, 3.0, 1.0), B::new(2.0, 0.0, 2.0, 0.0)]);
    let mut sc = globe_pts(if q { 9 } else { 17 }, if q { 9 } else { 17 });
    sc.extend(globe_pts(8, 7).iter().map(|s| s.map(&|c| (c.0 * 0.97, c.1 * 0.95))));
    sc.extend([pt(-3.1, 1.5), pt(3.1, 1.5), pt(0.1, 1.56), pt(-3.14, 0.0), pt(3.14, -0.3), pt(1.7, 1.3), pt(-1.7, -1.35)]);
    let xs = if q { vec![-PI, -1.0, 2.0, PI] } else { vec![-PI, -2.5, -1.0, 0.0, 2.0, 2.9, PI] };
    let ys = if q { vec![-1.4, 0.1, 1.2, FRAC_PI_2] } else { vec![-FRAC_PI_2, -1.4, -0.5, 0.1, 0.8, 1.2, FRAC_PI_2] };
    let cc = globe_axis(&xs, &ys);
    for a in &cc {
        for b in &cc {
            if a.0 <= b.0 && a.1 <= b.1 {
                sc.push(Shape::Rc(*a, *b));
            }
        }
    }
    sc.extend([ln(0.0, 0.0, 1.0, 1.0), Shape::Ls(vec![(0.0, 0.0), (1.0, 1.0)]), Shape::Pg(vec![(0.0, 0.0), (1.0, 0.0), (0.0, 1.0)], vec![])]);
    v.push(bound_space("sphere", CalcMethod::Spherical, sb, sc, 1e-11, false));
    let boxes = turned_boxes(tier);
    let off: Vec<f64> = turned_offsets(tier).into_iter().step_by(2).collect();
    let mut tc = vec![];
    for b in boxes.iter().step_by(7) {
        tc.extend(turned_positions(b, &off).into_iter().step_by(if q { 11 } else { 3 }).map(Shape::Pt));
    }
    v.push(bound_space("sphere-turned", CalcMethod::Spherical, boxes, tc, 1e-11, false));
    v.push(sphere_touch());
    // Everything on shared coordinates: edges in line, corners meeting
    let aligned = |g: &[f64]| {
        let cs = globe_axis(g, g);
        let mut boxes = vec![];
        for a in &cs {
            for b in &cs {
                if a.0 <= b.0 && a.1 <= b.1 {
                    boxes.push(B::new(a.0, a.1, b.0, b.1));
                }
            }
        }
        let mut cmps: Vec<Shape> = cs.iter().map(|c| Shape::Pt(*c)).collect();
        cmps.extend(boxes.iter().map(|b| b.shape()));
        (boxes, cmps)
    };
    for (name, g) in [("north", [-2.0, -0.5, 0.5, 1.0, 1.5]), ("south", [-1.5, -1.0, -0.75, 0.0, 1.25]), ("both", [-1.25, -0.5, 0.0, 0.5, 1.25])] {
        let (boxes, mut cmps) = aligned(&g);
        let boxes: Vec<B> = boxes.into_iter().filter(|b| b.y1 >= -FRAC_PI_2).collect();
        cmps.retain(|c| c.bbox().unwrap().y1 >= -FRAC_PI_2);
        v.push(bound_space(&format!("sphere-aligned-{name}"), CalcMethod::Spherical, boxes, cmps, 1e-11, false));
    }
    let (boxes, mut cmps) = aligned(&[0.0, 1.0, 2.0, 4.0]);
    cmps.extend(pool(Tier::Quick).into_iter().step_by(if q { 4 } else { 1 }));
    let zb = |u: f64| -> Vec<B> { zeros::bounds(u).into_iter().chain(zeros::shapes(u / 4.0).iter().filter(|s| matches!(s, Shape::Rc(..))).map(|s| s.bbox().unwrap())).collect() };
    v.push(bound_space("planar-zeros", CalcMethod::Euclidean, zb(8.0), [zeros::points(2.0), zeros::shapes(2.0)].concat(), 1e-11, true));
    let zc: Vec<Shape> = [zeros::points(0.125), zeros::shapes(0.125)].concat().into_iter().filter(|s| matches!(s, Shape::Pt(_) | Shape::Rc(..))).collect();
    v.push(bound_space("sphere-zeros", CalcMethod::Spherical, zb(0.5), zc, 1e-11, false));
    v.push(bound_space("planar-aligned", CalcMethod::Euclidean, boxes, cmps, 1e-11, true));
    let (boxes, _) = aligned(if q { &[0.0, 2.0, 4.0, 8.0] } else { &[0.0, 2.0, 4.0, 6.0, 7.0, 8.0] });
    v.push(bound_space("planar-catalog", CalcMethod::Euclidean, boxes, catalog::comparators(tier), 1e-11, true));
    // Comparators of many vertices, any one of which comes near
    let mut cmps = vec![];
    for n in if q { vec![5, 9, 17, 33, 65] } else { vertices::counts(Tier::Quick) } {
        for k in (0..n).step_by(1 + n / if q { 5 } else { 12 }) {
            cmps.extend([vertices::spike_ls(n, k, 1.0), vertices::spike_pg(n, k, 0.5), vertices::swap(&vertices::spike_ls(n, k, 0.25)), vertices::swap(&vertices::spike_pg(n, k, 1.5))]);
        }
    }
    let (boxes, _) = aligned(&[0.0, 0.5, 1.5, 8.0]);
    v.push(bound_space("planar-vertices", CalcMethod::Euclidean, boxes, cmps, 1e-11, true));
    v
}

/// Zero exactly when the comparator touches the box, on coordinates where that is exact.
fn sphere_touch() -> Space {
    let g = [-1.5, -1.0, 0.0, 0.5, 1.0];
    let cs = globe_axis(&g, &g);
    let mut boxes = vec![];
    for a in &cs {
        for b in &cs {
            if a.0 <= b.0 && a.1 <= b.1 {
                boxes.push(B::new(a.0, a.1, b.0, b.1));
            }
        }
    }
    let mut cmps: Vec<Shape> = globe_axis(&[-1.5, -1.25, -1.0, -0.5, 0.0, 0.5, 0.75, 1.0, 1.25], &[-1.5, -1.25, -1.0, -0.5, 0.0, 0.5, 0.75, 1.0, 1.25]).into_iter().map(Shape::Pt).collect();
    cmps.extend(boxes.iter().step_by(3).map(|b| b.shape()));
    let n = boxes.len();
    Space::new("sphere-touch", format!("{n} boxes on exact coordinates against {} positions and boxes: zero exactly when they touch", cmps.len()), n, move |i, sink| {
        let b = boxes[i];
        for (j, c) in cmps.iter().enumerate() {
            sink.at(|| format!("spherical distance of {c:?} to box {b:?}"));
            let d = c.geom().with_calc(CalcMethod::Spherical).dist_bbox(&b.rect());
            let t = touch(c, &b.shape());
            sink.evals += 1;
            sink.transitions += 1;
            sink.traces += 1;
            sink.states.insert(hash_pair(1, i, j));
            sink.out(if t { "touching" } else { "apart" });
            let r = if d.is_ok_and(|d| if t { d == 0.0 } else { d > 1e-3 }) { Ok(()) } else { Err(format!("{c:?} {} box {b:?} but its distance is {d:?}", if t { "touches" } else { "does not touch" })) };
            sink.judge(r, || (format!("{c:?} / {b:?}"), pair_code(c, &b.shape(), "a.with_calc(CalcMethod::Spherical)")))?;
        }
        Ok(())
    })
}

// ---------------------------------------------------------------- C19

#[derive(Debug, Clone)]
struct Custom {
    id: usize,
    at: Coord<f64>,
    g: Point<f64>,
}
impl AsPoint<f64> for Custom {
    fn as_point(&self) -> Point<f64> {
        Point(self.at)
    }
}
impl AsGeom<f64> for Custom {
    fn as_geom(&self) -> GeometryRef<'_, f64> {
        GeometryRef::Point(&self.g)
    }
}

fn verts(g: &Geometry<f64>) -> Vec<Vec<C>> {
    fn l(s: &LineString<f64>) -> Vec<C> {
        s.0.iter().map(|c| (c.x, c.y)).collect()
    }
    match g {
        Geometry::Point(p) => vec![vec![(p.x(), p.y())]],
        Geometry::Line(s) => vec![vec![(s.start.x, s.start.y), (s.end.x, s.end.y)]],
        Geometry::LineString(s) => vec![l(s)],
        Geometry::Polygon(p) => std::iter::once(l(p.exterior())).chain(p.interiors().iter().map(l)).collect(),
        Geometry::Rect(r) => vec![vec![(r.min().x, r.min().y), (r.max().x, r.max().y)]],
    }
}

fn kind_of(g: &Geometry<f64>) -> &'static str {
    match g {
        Geometry::Point(_) => "Point",
        Geometry::Line(_) => "Line",
        Geometry::LineString(_) => "LineString",
        Geometry::Polygon(_) => "Polygon",
        Geometry::Rect(_) => "Rect",
    }
}

fn ref_kind(g: &GeometryRef<'_, f64>) -> &'static str {
    match g {
        GeometryRef::Point(_) => "Point",
        GeometryRef::Line(_) => "Line",
        GeometryRef::LineString(_) => "LineString",
        GeometryRef::Polygon(_) => "Polygon",
        GeometryRef::Rect(_) => "Rect",
    }
}

fn conv_case(s: &Shape, sink: &mut Sink) -> Result<(), String> {
    let g = s.geom();
    let before = verts(&g);
    // By value and in place, wrapped and bare
    let mut outs: Vec<(String, Geometry<f64>)> = vec![("Geometry::to_radians".into(), g.to_radians())];
    let mut h = g.clone();
    h.to_radians_in_place();
    outs.push(("Geometry::to_radians_in_place".into(), h));
    macro_rules! bare {
        ($($k:ident),*) => { match &g { $(Geometry::$k(x) => {
            outs.push((concat!(stringify!($k), "::to_radians").into(), Geometry::from(ToRadians::to_radians(x))));
            let mut y = x.clone();
            y.to_radians_in_place();
            outs.push((concat!(stringify!($k), "::to_radians_in_place").into(), Geometry::from(y)));
            // Conversions
            let from = Geometry::from(x.clone());
            ensure!(kind_of(&from) == stringify!($k) && verts(&from) == before, "Geometry::from {s:?} gives {from:?}");
            ensure!(ref_kind(&x.as_geom()) == stringify!($k), "as_geom of {s:?} gives {:?}", x.as_geom());
            let t = Geometry::try_from(geo::Geometry::$k(x.clone())).map_err(|e| format!("Geometry::try_from({s:?}) fails with {e:?}"))?;
            ensure!(kind_of(&t) == stringify!($k) && verts(&t) == before, "Geometry::try_from({s:?}) gives {t:?}");
            let want: Option<Rect<f64>> = s.bbox().map(|b| b.rect());
            ensure!(x.as_geom().bounding_rect() == want, "bounding box of {s:?} by reference is {:?}, expected {want:?}", x.as_geom().bounding_rect());
        })* } }
    }
    bare!(Point, Line, LineString, Polygon, Rect);
    let want_b: Option<Rect<f64>> = s.bbox().map(|b| b.rect());
    ensure!(g.bounding_rect() == want_b, "bounding box of {s:?} is {:?}, expected {want_b:?}", g.bounding_rect());
    ensure!(g.as_geom().bounding_rect() == want_b, "bounding box of {s:?} by reference is {:?}, expected {want_b:?}", g.as_geom().bounding_rect());
    ensure!(ref_kind(&g.as_geom()) == kind_of(&g) && ref_kind(&g.as_geom().as_geom()) == kind_of(&g), "as_geom changes the kind of {s:?}");
    let f = |v: f64| v * (PI / 180.0);
    for (path, o) in &outs {
        ensure!(kind_of(o) == kind_of(&g), "{path} of {s:?} gives {o:?}");
        let got = verts(o);
        ensure!(got.len() == before.len(), "{path} of {s:?} gives {o:?}");
        for (a, b) in got.iter().zip(&before) {
            ensure!(a.len() == b.len(), "{path} of {s:?} gives {o:?}");
            for (p, q) in a.iter().zip(b) {
                let near = |x: f64, w: f64| (x - w).abs() <= 1e-13 * w.abs() + f64::MIN_POSITIVE;
                let ok = near(p.0, f(q.0)) && near(p.1, f(q.1));
                ensure!(ok, "{path} of {s:?} gives {o:?}: {p:?} for {q:?}");
            }
        }
    }
    ensure!(verts(&g) == before, "to_radians changed its argument {s:?}");
    // f32
    sink.evals += outs.len() as u64 + 8;
    sink.transitions += outs.len() as u64 + 8;
    sink.traces += 1;
    let fits = |v: f64| v == 0.0 || (1e-30..1e30).contains(&v.abs());
    if !before.iter().flatten().all(|c| fits(c.0) && fits(c.1)) {
        return Ok(());
    }
    let g3 = g32(s);
    let mut i3 = g3.clone();
    i3.to_radians_in_place();
    let near = |x: f64, w: f64| (x - w).abs() <= 1e-6 * w.abs() + f32::MIN_POSITIVE as f64;
    for (path, o) in [("f32 to_radians", g3.to_radians()), ("f32 to_radians_in_place", i3)] {
        let got: Vec<C> = match &o {
            Geometry::Point(p) => vec![(p.x() as f64, p.y() as f64)],
            Geometry::Line(l) => vec![(l.start.x as f64, l.start.y as f64), (l.end.x as f64, l.end.y as f64)],
            Geometry::LineString(l) => l.0.iter().map(|c| (c.x as f64, c.y as f64)).collect(),
            Geometry::Polygon(p) => p.exterior().0.iter().chain(p.interiors().iter().flat_map(|r| r.0.iter())).map(|c| (c.x as f64, c.y as f64)).collect(),
            Geometry::Rect(r) => vec![(r.min().x as f64, r.min().y as f64), (r.max().x as f64, r.max().y as f64)],
        };
        let want: Vec<C> = before.iter().flatten().map(|c| (f(c.0), f(c.1))).collect();
        ensure!(got.len() == want.len() && got.iter().zip(&want).all(|(a, b)| near(a.0, b.0) && near(a.1, b.1)), "{path} of {s:?} gives {o:?}");
    }
    Ok(())
}

pub fn c19(tier: Tier) -> Vec<Space> {
    let q = tier == Tier::Quick;
    let mut v = vec![];
    let mut shapes = vec![];
    for f in [Frame::new(-180.0, -90.0, 45.0, 22.5), Frame::new(-10.0, 3.0, 1.0, 0.125), Frame::new(170.0, 80.0, 5.0, 3.0), Frame::new(-1000.0, -500.0, 250.0, 125.0), Frame::new(300.0, -460.0, 60.0, 15.0), Frame::new(-4e5, -1e6, 1e5, 3e5), Frame::new(1e-3, -2e-3, 1e-3, 5e-4), Frame::new(-1e300, 1e299, 3e299, 2e299), Frame::new(1e-300, -4e-300, 1e-300, 1e-300)] {
        shapes.extend(pool(tier).iter().map(|s| f.s(s)));
        for n in vertices::counts(tier) {
            let k = n * 5 / 8;
            shapes.extend([vertices::spike_ls(n, k, 0.5), vertices::spike_pg(n, k, 0.5), vertices::plate(n)].iter().map(|s| f.s(s)));
        }
        for n in [300, 1025, 4099] {
            shapes.extend([vertices::spike_ls(n, n / 3, 0.5), vertices::spike_pg(n, n - 2, 0.5), vertices::plate(n)].iter().map(|s| f.s(s)));
        }
    }
    v.push(Space::new(
        "radians",
        format!("{} shapes of every kind: radians by value and in place, wrapped and bare, f32 and f64; conversions and bounding boxes", shapes.len()),
        shapes.len(),
        move |i, sink| {
            let s = &shapes[i];
            sink.at(|| format!("conversions of {s:?}"));
            sink.states.insert(i as u64);
            sink.nontrivial += 1;
            sink.out(s.kind());
            let r = conv_case(s, sink);
            if i == 100 {
                sink.sample(|| format!("{s:?}"));
            }
            sink.judge(r, || (format!("{s:?}"), pair_code(s, s, "a.to_radians()")))
        },
    ));
    v.push(Space::new("unsupported", "every kind of geo::Geometry that the crate has no counterpart for", 1, |_, sink| {
        let p: Point<f64> = Point::new(1.0, 2.0);
        let l = LineString::from(vec![(0.0, 0.0), (1.0, 1.0)]);
        let cases: Vec<(&str, geo::Geometry<f64>)> = vec![
            ("MultiPoint", geo::Geometry::MultiPoint(MultiPoint::new(vec![p]))),
            ("MultiLineString", geo::Geometry::MultiLineString(geo::MultiLineString::new(vec![l.clone()]))),
            ("MultiPolygon", geo::Geometry::MultiPolygon(geo::MultiPolygon::new(vec![Polygon::new(l, vec![])]))),
            ("GeometryCollection", geo::Geometry::GeometryCollection(geo::GeometryCollection::new_from(vec![geo::Geometry::Point(p)]))),
            ("Triangle", geo::Geometry::Triangle(Triangle::new(co((0.0, 0.0)), co((1.0, 0.0)), co((0.0, 1.0))))),
        ];
        for (k, g) in cases {
            sink.at(|| format!("try_from {k}"));
            let got = Geometry::try_from(g);
            sink.evals += 1;
            sink.transitions += 1;
            sink.out("refused");
            let r = if matches!(got, Err(Error::UnsupportedGeometry)) { Ok(()) } else { Err(format!("try_from of a {k} gives {got:?}")) };
            sink.judge(r, || (k.to_string(), String::new()))?;
        }
        Ok(())
    }));
    // Trees of bare points, coordinates, wrappers and custom data answer alike
    let n = if q { 8 } else { 11 };
    for (ki, calc) in [CalcMethod::Euclidean, CalcMethod::Spherical].into_iter().enumerate() {
        let f = if ki == 0 { Frame::ID } else { Frame::new(-2.0, -1.0, 0.5, 0.25) };
        let lat: Vec<Shape> = lattice(4, 0.0, 8.0).iter().map(|s| f.s(s)).take(n).collect();
        // On the sphere a box is measured differently against points and against boxes
        let third = if ki == 0 { rc(1.0, 1.0, 3.0, 2.0) } else { pt(7.0, 0.25) };
        let cmps: Vec<Shape> = [pt(4.0, 4.0), pt(0.5, 7.0), third].iter().map(|s| f.s(s)).collect();
        v.push(Space::new(format!("datum-types-{calc:?}"), format!("every subset of {n} positions in trees of Point, Coord, Custom, Rect and wrapper data, compared by contents and answers"), 1 << n, move |m, sink| {
            let set: Vec<C> = (0..n)
                .filter(|i| m >> i & 1 == 1)
                .map(|i| match &lat[i] {
                    Shape::Pt(c) => *c,
                    _ => unreachable!(),
                })
                .collect();
            sink.at(|| format!("trees of {set:?}"));
            sink.states.insert(m as u64);
            let r = datum_types(&f.b(UNIT), calc, &set, &cmps, sink);
            sink.judge(r, || (format!("{calc:?} {set:?}"), String::new()))
        }));
    }
    // Comparators in every wrapper
    let rich = rich_shapes();
    for calc in [CalcMethod::Euclidean, CalcMethod::Spherical] {
        let f = if matches!(calc, CalcMethod::Euclidean) { Frame::ID } else { Frame::new(-2.0, -1.0, 0.5, 0.25) };
        let pts = matches!(calc, CalcMethod::Spherical);
        let w = World::new(Kind::B, f, UNIT, calc, Some((3, 1)), &rich[..if q { 7 } else { 10 }], &cmps_small());
        v.push(hist_space(&format!("comparator-types-{calc:?}"), vec![w], Fam::Sub { n: if q { 7 } else { 10 } }, 8, move |r, s| cmp_types(r, s, pts)));
    }
    v
}

fn datum_types(b: &B, calc: CalcMethod, set: &[C], cmps: &[Shape], sink: &mut Sink) -> Result<(), String> {
    let bounds = b.rect();
    let lim = (3u8, 1usize);
    let mut a: PointQuadTree<Point<f64>, f64> = PointQuadTree::new(bounds, calc, lim.0, lim.1);
    let mut c: PointQuadTree<Coord<f64>, f64> = PointQuadTree::new(bounds, calc, lim.0, lim.1);
    let mut u: PointQuadTree<Custom, f64> = PointQuadTree::new(bounds, calc, lim.0, lim.1);
    let mut bp: BoundsQuadTree<Point<f64>, f64> = BoundsQuadTree::new(bounds, calc, lim.0, lim.1);
    let mut br: BoundsQuadTree<Rect<f64>, f64> = BoundsQuadTree::new(bounds, calc, lim.0, lim.1);
    let mut bg: BoundsQuadTree<Geometry<f64>, f64> = BoundsQuadTree::new(bounds, calc, lim.0, lim.1);
    let mut bu: BoundsQuadTree<Custom, f64> = BoundsQuadTree::new(bounds, calc, lim.0, lim.1);
    let pts: Vec<Point<f64>> = set.iter().map(|p| Point::new(p.0, p.1)).collect();
    let mut bf: BoundsQuadTree<GeometryRef<'_, f64>, f64> = BoundsQuadTree::new(bounds, calc, lim.0, lim.1);
    for (id, p) in pts.iter().enumerate() {
        let cu = Custom { id, at: p.0, g: *p };
        let rs = [
            ("PointQuadTree<Point>", a.insert(*p)),
            ("PointQuadTree<Coord>", c.insert(p.0)),
            ("PointQuadTree<Custom>", u.insert(cu.clone())),
            ("BoundsQuadTree<Point>", bp.insert(*p)),
            ("BoundsQuadTree<Rect>", br.insert(Rect::new(p.0, p.0))),
            ("BoundsQuadTree<Geometry>", bg.insert((*p).into())),
            ("BoundsQuadTree<Custom>", bu.insert(cu)),
            ("BoundsQuadTree<GeometryRef>", bf.insert(p.as_geom())),
        ];
        for (k, r) in rs {
            ensure!(r.is_ok(), "{k}: insert {p:?} fails with {r:?}");
        }
    }
    sink.transitions += 8 * set.len() as u64;
    sink.traces += 1;
    fn xy(g: GeometryRef<'_, f64>) -> C {
        match g.bounding_rect() {
            Some(r) => (r.min().x, r.min().y),
            None => (f64::NAN, f64::NAN),
        }
    }
    let want: Vec<C> = a.into_iter().map(|p| (p.x(), p.y())).collect();
    let its: Vec<(&str, Vec<C>)> = vec![
        ("PointQuadTree<Coord>", c.into_iter().map(|p| (p.x, p.y)).collect()),
        ("PointQuadTree<Custom>", u.into_iter().map(|p| (p.at.x, p.at.y)).collect()),
        ("BoundsQuadTree<Point>", bp.into_iter().map(|p| (p.x(), p.y())).collect()),
        ("BoundsQuadTree<Rect>", br.into_iter().map(|p| xy(p.as_geom())).collect()),
        ("BoundsQuadTree<Geometry>", bg.into_iter().map(|p| xy(p.as_geom())).collect()),
        ("BoundsQuadTree<Custom>", bu.into_iter().map(|p| (p.at.x, p.at.y)).collect()),
        ("BoundsQuadTree<GeometryRef>", bf.into_iter().map(|p| xy(*p)).collect()),
    ];
    let srt = |v: &[C]| {
        let mut v = v.to_vec();
        v.sort_by(|a, b| a.partial_cmp(b).unwrap());
        v
    };
    sink.evals += its.len() as u64;
    ensure!(srt(&want) == srt(set), "PointQuadTree<Point> holds {want:?}, given {set:?}");
    for (k, v) in &its {
        ensure!(srt(v) == srt(set), "{k} holds {v:?}, given {set:?}");
    }
    // Ids of custom data survive
    for x in &u {
        ensure!(set[x.id] == (x.at.x, x.at.y), "custom datum {x:?} changed");
    }
    // Retrieval by the datum's own type
    for (id, p) in pts.iter().enumerate() {
        let cu = Custom { id, at: p.0, g: *p };
        let w = srt(&a.retrieve(p).map(|p| (p.x(), p.y())).collect::<Vec<_>>());
        ensure!(w.contains(&set[id]), "PointQuadTree<Point>: retrieve({p:?}) gives {w:?}");
        let o = srt(&c.retrieve(&p.0).map(|p| (p.x, p.y)).collect::<Vec<_>>());
        ensure!(w == o, "retrieve({p:?}) gives {w:?} on points, {o:?} on coordinates");
        let o = srt(&u.retrieve(&cu).map(|p| (p.at.x, p.at.y)).collect::<Vec<_>>());
        ensure!(w == o, "retrieve({p:?}) gives {w:?} on points, {o:?} on custom data");
        let w = srt(&bp.retrieve(p).map(|p| (p.x(), p.y())).collect::<Vec<_>>());
        ensure!(w.contains(&set[id]), "BoundsQuadTree<Point>: retrieve({p:?}) gives {w:?}");
        let o = srt(&br.retrieve(&Rect::new(p.0, p.0)).map(|p| xy(p.as_geom())).collect::<Vec<_>>());
        ensure!(w == o, "retrieve({p:?}) gives {w:?} on points, {o:?} on rects");
        let o = srt(&bu.retrieve(&cu).map(|p| (p.at.x, p.at.y)).collect::<Vec<_>>());
        ensure!(w == o, "retrieve({p:?}) gives {w:?} on points, {o:?} on custom data");
        let o = srt(&bf.retrieve(&p.as_geom()).map(|p| xy(*p)).collect::<Vec<_>>());
        ensure!(w == o, "retrieve({p:?}) gives {w:?} on points, {o:?} on references");
        sink.evals += 7;
    }
    // Searches: distances agree between all of them
    for s in cmps {
        let g = s.geom();
        let w: Result<Vec<f64>, Error> = a.knn(&g, usize::MAX).map(|v| v.iter().map(|h| h.1).collect());
        let Ok(w) = w else { return Err(format!("PointQuadTree<Point>: knn({s:?}) fails with {w:?}")) };
        ensure!(w.len() == set.len(), "PointQuadTree<Point>: knn({s:?}) gives {w:?}");
        macro_rules! same {
            ($($n:literal, $t:expr);*) => { $(
                let k: Result<Vec<f64>, Error> = $t.knn(&g, usize::MAX).map(|v| v.iter().map(|h| h.1).collect());
                let st: Vec<f64> = $t.sorted(&g).map(|h| h.1).take(2 * set.len() + 9).collect();
                let f = $t.find(&g).map(|h| h.1);
                sink.evals += 3;
                let close = |v: &[f64]| v.len() == w.len() && v.iter().zip(&w).all(|(a, b)| (a - b).abs() < 1e-10);
                ensure!(k.as_ref().is_ok_and(|v| close(v)), "{}: knn({s:?}) gives {k:?}, PointQuadTree<Point> {w:?}", $n);
                ensure!(close(&st), "{}: sorted({s:?}) gives {st:?}, knn on PointQuadTree<Point> {w:?}", $n);
                match w.first() {
                    Some(m) => ensure!(f.is_ok_and(|d| (d - m).abs() < 1e-10), "{}: find({s:?}) gives {f:?}, nearest is at {m}", $n),
                    None => ensure!(f == Err(Error::Empty), "{}: find({s:?}) gives {f:?} on an empty tree", $n),
                }
            )* }
        }
        same!("PointQuadTree<Point>", a; "PointQuadTree<Custom>", u; "BoundsQuadTree<Point>", bp; "BoundsQuadTree<Rect>", br; "BoundsQuadTree<Geometry>", bg; "BoundsQuadTree<Custom>", bu; "BoundsQuadTree<GeometryRef>", bf);
    }
    sink.nontrivial += (set.len() > 1) as u64;
    sink.out(if set.is_empty() { "empty" } else { "some" });
    Ok(())
}

/// The comparator's wrapper makes no difference.
fn cmp_types(r: &Run, sink: &mut Sink, points_only: bool) -> Result<(), String> {
    if r.acc.is_empty() {
        return Ok(());
    }
    let AnyTree::B(t) = &r.tree else { unreachable!() };
    for (c, s) in r.w.cmps.iter().enumerate() {
        if points_only && !matches!(s, Shape::Pt(_)) {
            continue;
        }
        let g = &r.w.cgeoms[c];
        let rf = g.as_geom();
        let base = (t.find(g).map(|h| (h.0.id, h.1)), t.knn(g, 3).map(|v| v.iter().map(|h| h.1).collect::<Vec<_>>()), t.sorted(g).map(|h| h.1).collect::<Vec<_>>());
        ensure!(base.0.is_ok() && base.1.is_ok() && base.2.len() == r.acc.len(), "searches with {s:?} give {base:?}");
        let by_ref = (t.find(&rf).map(|h| (h.0.id, h.1)), t.knn(&rf, 3).map(|v| v.iter().map(|h| h.1).collect::<Vec<_>>()), t.sorted(&rf).map(|h| h.1).collect::<Vec<_>>());
        ensure!(base == by_ref, "searches with {s:?}: {base:?} as Geometry, {by_ref:?} as GeometryRef");
        macro_rules! bare {
            ($($k:ident),*) => { match g { $(Geometry::$k(x) => {
                let b = (t.find(x).map(|h| (h.0.id, h.1)), t.knn(x, 3).map(|v| v.iter().map(|h| h.1).collect::<Vec<_>>()), t.sorted(x).map(|h| h.1).collect::<Vec<_>>());
                ensure!(base == b, "searches with {s:?}: {base:?} as Geometry, {b:?} as {}", stringify!($k));
            })* } }
        }
        bare!(Point, Line, LineString, Polygon, Rect);
        sink.evals += 3;
        sink.transitions += 9;
        sink.nontrivial += 1;
        sink.out(s.kind());
    }
    let _ = QT;
    Ok(())
}
