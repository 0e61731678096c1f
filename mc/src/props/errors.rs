//! C15: which searches fail, and how; nothing panics.

use super::*;
use crate::model::Kind;

/// Comparators of every kind, inside, on the border of and outside the unit bounds, and odd ones.
fn comparators() -> Vec<Shape> {
    let mut v = cmps_small();
    v.extend([
        // Just touching
        rc(8.0, 2.0, 9.0, 3.0),
        rc(-2.0, -2.0, 0.0, 0.0),
        ln(8.0, 8.0, 9.0, 9.0),
        Shape::Ls(vec![(-1.0, 8.0), (4.0, 8.0), (4.0, 9.0)]),
        Shape::Pg(vec![(8.0, 1.0), (10.0, 0.0), (10.0, 4.0)], vec![]),
        // Outside
        pt(9.0, 4.0),
        pt(-0.25, 8.25),
        pt(4.0, -1.0),
        rc(8.25, 0.0, 9.0, 8.0),
        rc(-3.0, 9.0, 11.0, 10.0),
        rc(9.0, -3.0, 10.0, -1.0),
        ln(9.0, 0.0, 9.0, 8.0),
        // Box overlaps the bounds, shape does not
        ln(7.0, 9.5, 9.5, 7.0),
        Shape::Ls(vec![(9.0, -1.0), (9.0, 9.0), (-1.0, 9.0)]),
        Shape::Pg(vec![(9.5, 7.0), (10.0, 10.0), (7.0, 9.5)], vec![]),
        // Bounds inside a hole
        Shape::Pg(vec![(-4.0, -4.0), (12.0, -4.0), (12.0, 12.0), (-4.0, 12.0)], vec![vec![(-1.0, -1.0), (9.0, -1.0), (9.0, 9.0), (-1.0, 9.0)]]),
        // Nothing to measure
        Shape::Ls(vec![]),
        Shape::Pg(vec![], vec![]),
        Shape::Ls(vec![(3.0, 3.0)]),
        // Around the bounds
        rc(-4.0, -4.0, 12.0, 12.0),
        Shape::Pg(vec![(-4.0, -4.0), (12.0, -4.0), (12.0, 12.0), (-4.0, 12.0)], vec![]),
    ]);
    v
}

/// Points and boxes off every side and corner of the bounds by a hair, or on them exactly.
fn hairs(b: &B) -> Vec<Shape> {
    let mut v = vec![];
    let (mx, my) = ((b.x1 + b.x2) / 2.0, (b.y1 + b.y2) / 2.0);
    // (squares of anything smaller than 1e-100 may legitimately vanish)
    let less = |x: f64| [x, x.next_down().min(x - 1e-100), x - 1e-17, x - 1e-9];
    let more = |x: f64| [x, x.next_up().max(x + 1e-100), x + 1e-17, x + 1e-9];
    for i in 0..4 {
        v.extend([pt(less(b.x1)[i], my), pt(more(b.x2)[i], my), pt(mx, less(b.y1)[i]), pt(mx, more(b.y2)[i])]);
        v.extend([pt(less(b.x1)[i], b.y1), pt(more(b.x2)[i], more(b.y2)[i]), pt(less(b.x1)[i], more(b.y2)[i])]);
        v.extend([rc(less(b.x1)[i] - 0.25, b.y1, less(b.x1)[i], my), rc(more(b.x2)[i], b.y1, more(b.x2)[i] + 0.25, my)]);
        v.extend([rc(mx, less(b.y1)[i] - 0.25, b.x2, less(b.y1)[i]), rc(mx, more(b.y2)[i], b.x2, more(b.y2)[i] + 0.25)]);
    }
    v.dedup();
    v
}

const KS: [usize; 7] = [0, 1, 2, 3, 7, 64, usize::MAX];
const RS: [f64; 11] = [f64::INFINITY, 0.0, -0.0, 1.5, -1.0, f64::NEG_INFINITY, f64::MIN_POSITIVE, 1e-320, f64::MAX, 4.0, 1e-9];

#[derive(PartialEq, Debug, Clone, Copy)]
enum Class {
    NoMethod,
    Unmeasurable,
    Outside,
    Fine,
}

fn class(w: &World, c: usize) -> Class {
    match w.cfg.calc {
        CalcMethod::None => Class::NoMethod,
        m => match ref_dist(m, &w.cmps[c], &w.cfg.b.shape()) {
            None => Class::Unmeasurable,
            // Boxes touch or not, whatever the rounding of distances
            Some(_) if matches!(w.cmps[c], Shape::Pt(_) | Shape::Rc(..)) => {
                if w.cmps[c].bbox().unwrap().touches(&w.cfg.b) {
                    Class::Fine
                } else {
                    Class::Outside
                }
            }
            Some(d) if d > 0.0 => Class::Outside,
            Some(_) => Class::Fine,
        },
    }
}

type Ks<'a> = Result<Vec<(usize, f64)>, Error>;

fn check(r: &Run, sink: &mut Sink) -> Result<(), String> {
    let w = r.w;
    let n = r.acc.len();
    let told = r.tree.calc_method();
    ensure!(std::mem::discriminant(&told) == std::mem::discriminant(&w.cfg.calc), "calc_method() is {told:?} on a tree made with {:?}", w.cfg.calc);
    for c in 0..w.cmps.len() {
        let cls = class(w, c);
        let g = &w.cgeoms[c];
        let s = &w.cmps[c];
        // Measurable data, nearest first, and the others
        let mut near: Vec<f64> = vec![];
        let mut odd = 0;
        for id in &r.acc {
            match w.table[c][r.hist[*id]] {
                Some(d) if d.is_finite() => near.push(d),
                _ => odd += 1,
            }
        }
        near.sort_by(|a, b| a.partial_cmp(b).unwrap());
        let tol = w.tol(near.first().copied().unwrap_or(0.0));
        // With a single cell every datum has to be examined
        let one_cell = w.cfg.limits().0 == 0;

        for rad in RS {
            sink.at(|| format!("{}\n  then find_r {rad:?} with comparator {s:?}", r.describe()));
            let got = if rad == f64::INFINITY { r.tree.find(g) } else { r.tree.find_r(g, rad) };
            sink.evals += 1;
            sink.transitions += 1;
            let call = || if rad == f64::INFINITY { format!("find({s:?})") } else { format!("find_r({s:?}, {rad:?})") };
            let want_err = |e: Error| {
                if got == Err(e) || (n == 0 && got == Err(Error::Empty)) {
                    Ok(())
                } else {
                    Err(format!("{} gives {got:?}, expected {e:?}", call()))
                }
            };
            match cls {
                Class::NoMethod => want_err(Error::CalcMethodNotSet)?,
                Class::Unmeasurable => want_err(Error::InvalidDistance)?,
                Class::Outside => want_err(Error::OutOfBounds)?,
                Class::Fine if n == 0 => ensure!(got == Err(Error::Empty), "{} gives {got:?} on an empty tree, expected Empty", call()),
                Class::Fine if odd == 0 => {
                    // Radii within rounding of the nearest distance are decided elsewhere
                    let close = (near[0] - rad).abs() <= tol && near[0] != rad;
                    match &got {
                        Err(Error::NoneInRadius) => ensure!(near[0] > rad - tol, "{} gives NoneInRadius, nearest is at {}", call(), near[0]),
                        Err(e) => return Err(format!("{} gives {e:?}, nearest is at {}", call(), near[0])),
                        Ok(h) => ensure!((near[0] <= rad || close) && (h.1 - near[0]).abs() <= tol, "{} gives {h:?}, nearest is at {}", call(), near[0]),
                    }
                }
                Class::Fine => match &got {
                    Err(Error::InvalidDistance) | Err(Error::NoneInRadius) => {}
                    Err(e) => return Err(format!("{} gives {e:?} with unmeasurable data", call())),
                    Ok(h) if !h.1.is_finite() => {}
                    Ok(h) => ensure!(!near.is_empty() && h.1 >= near[0] - tol, "{} gives {h:?}", call()),
                },
            }
            sink.out(match &got {
                Ok(_) => "find: found",
                Err(Error::CalcMethodNotSet) => "find: CalcMethodNotSet",
                Err(Error::InvalidDistance) => "find: InvalidDistance",
                Err(Error::OutOfBounds) => "find: OutOfBounds",
                Err(Error::Empty) => "find: Empty",
                Err(Error::NoneInRadius) => "find: NoneInRadius",
                Err(_) => "find: other",
            });
        }
        for k in KS {
            for rad in RS {
                sink.at(|| format!("{}\n  then knn_r k={k} {rad:?} with comparator {s:?}", r.describe()));
                let got: Ks = if rad == f64::INFINITY { r.tree.knn(g, k) } else { r.tree.knn_r(g, k, rad) };
                sink.evals += 1;
                sink.transitions += 1;
                let call = || if rad == f64::INFINITY { format!("knn({s:?}, {k})") } else { format!("knn_r({s:?}, {k}, {rad:?})") };
                let want = match cls {
                    Class::NoMethod => Some(Error::CalcMethodNotSet),
                    Class::Unmeasurable => Some(Error::InvalidDistance),
                    Class::Outside => Some(Error::OutOfBounds),
                    Class::Fine => None,
                };
                if let Some(e) = want {
                    ensure!(got == Err(e), "{} gives {got:?}, expected {e:?}", call());
                    sink.out("knn: fails for the comparator");
                    continue;
                }
                let list = |v: &Vec<(usize, f64)>| -> Result<(), String> {
                    // Between these counts rounding decides
                    let lo = near.iter().filter(|d| **d <= rad - w.tol(**d) || (**d == rad && rad == 0.0)).count().min(k);
                    let hi = near.iter().filter(|d| **d <= rad + w.tol(**d)).count().min(k);
                    let hi = if rad < 0.0 { 0 } else { hi };
                    let lo = lo.min(hi);
                    ensure!(v.len() >= lo && v.len() <= hi, "{} gives {v:?}, expected between {lo} and {hi} data", call());
                    for (i, h) in v.iter().enumerate() {
                        ensure!((h.1 - near[i]).abs() <= w.tol(near[i]), "{} gives {v:?}, distances are {near:?}", call());
                    }
                    Ok(())
                };
                match &got {
                    Ok(v) if odd == 0 => {
                        list(v)?;
                        sink.out("knn: list");
                    }
                    Ok(v) => {
                        let forced = rad >= 0.0 && k > 0 && (one_cell || (rad == f64::INFINITY && k > near.len()));
                        ensure!(!forced, "{} gives {v:?} though {odd} data it has to examine cannot be measured", call());
                        list(v)?;
                        sink.out("knn: list without examining the unmeasurable");
                    }
                    Err(Error::InvalidDistance) if odd > 0 && k > 0 => {
                        sink.nontrivial += 1;
                        sink.out("knn: InvalidDistance for a datum");
                    }
                    Err(e) => return Err(format!("{} gives {e:?}", call())),
                }
            }
        }
        sink.at(|| format!("{}\n  then sorted with comparator {s:?}", r.describe()));
        let mut it = r.tree.sorted(g);
        let got: Vec<(usize, f64)> = it.by_ref().take(2 * n + 8).collect();
        sink.evals += 1;
        sink.transitions += 1;
        if cls != Class::Fine {
            ensure!(got.is_empty(), "sorted({s:?}) gives {got:?}, expected nothing ({cls:?})");
            sink.out("sorted: empty for the comparator");
            continue;
        }
        let mut ids: Vec<usize> = got.iter().map(|h| h.0).collect();
        ids.sort_unstable();
        ids.dedup();
        ensure!(
            got.len() == near.len() && ids.len() == got.len() && got.iter().zip(&near).all(|(h, d)| (h.1 - d).abs() <= w.tol(*d)),
            "sorted({s:?}) gives {got:?}, expected the {} measurable data at {near:?}, skipping {odd}",
            near.len()
        );
        sink.out(if odd > 0 { "sorted: skips" } else { "sorted: all" });
        if odd > 0 {
            sink.nontrivial += 1;
        }
    }
    Ok(())
}

/// Comparators with non-finite or huge coordinates, and radii and k of every sort: only
/// termination without panic, no repetition and no invented data are judged.
fn weird(r: &Run, sink: &mut Sink) -> Result<(), String> {
    let (nan, inf, max) = (f64::NAN, f64::INFINITY, f64::MAX);
    let e = 4.9e-324;
    let vals = [nan, inf, -inf, max, -max, e, -0.0, 4.0, 1e200, -1e200];
    let mut cs: Vec<Geometry<f64>> = vec![];
    for x in vals {
        for y in vals {
            cs.push(pt(x, y).geom());
            cs.push(ln(1.0, 1.0, x, y).geom());
            cs.push(ln(x, 3.0, 3.0, y).geom());
            // geo itself cannot take coordinates whose squares overflow in these
            if x.abs() != max && y.abs() != max {
                cs.push(Shape::Ls(vec![(1.0, 1.0), (x, y), (2.0, 3.0)]).geom());
                cs.push(Shape::Pg(vec![(1.0, 1.0), (x, y), (2.0, 3.0)], vec![]).geom());
                cs.push(Shape::Pg(vec![(1.0, 1.0), (3.0, 1.0), (2.0, 3.0)], vec![vec![(1.5, 1.5), (x, y), (2.0, 2.0)]]).geom());
            }
            if r.w.cfg.kind == Kind::B && (x.abs() >= max || y.abs() >= max) {
                continue;
            }
            if x >= 1.0 && y >= 1.0 {
                cs.push(rc(1.0, 1.0, x, y).geom());
            }
            if x <= 1.0 && y <= 1.0 {
                cs.push(rc(x, y, 1.0, 1.0).geom());
            }
        }
    }
    cs.push(Shape::Ls(vec![(1.0, 1.0)]).geom());
    cs.push(Shape::Ls(vec![]).geom());
    cs.push(Shape::Pg(vec![], vec![]).geom());
    cs.push(Shape::Pg(vec![(1.0, 1.0)], vec![]).geom());
    cs.push(Shape::Pg(vec![(1.0, 1.0), (7.0, 1.0), (2.0, 7.0)], vec![vec![], vec![(1.5, 1.5)], vec![(1.5, 2.0), (4.0, 2.0), (2.0, 4.0)]]).geom());
    let n = r.acc.len();
    for g in &cs {
        let ok = |v: &[(usize, f64)]| -> bool {
            let mut ids: Vec<usize> = v.iter().map(|h| h.0).collect();
            ids.sort_unstable();
            ids.dedup();
            ids.len() == v.len() && ids.iter().all(|i| r.acc.contains(i))
        };
        for rad in [inf, nan, -inf, 0.0, 1.0, max] {
            sink.at(|| format!("{}\n  then find_r/knn_r {rad:?} with comparator {g:?}", r.describe()));
            let f = r.tree.find_r(g, rad);
            ensure!(f.is_err() || r.acc.contains(&f.unwrap().0), "find_r({g:?}, {rad:?}) gives {f:?}");
            for k in [0, 1, 3, usize::MAX] {
                let v = r.tree.knn_r(g, k, rad);
                ensure!(v.as_ref().map_or(true, |v| ok(v) && v.len() <= k), "knn_r({g:?}, {k}, {rad:?}) gives {v:?}");
            }
            sink.evals += 5;
            sink.transitions += 5;
        }
        sink.at(|| format!("{}\n  then sorted with comparator {g:?}", r.describe()));
        let v: Vec<(usize, f64)> = r.tree.sorted(g).take(2 * n + 8).collect();
        ensure!(ok(&v), "sorted({g:?}) gives {v:?}");
        sink.evals += 1;
        sink.transitions += 1;
        sink.out(if f64_finite(g) { "finite comparator" } else { "non-finite comparator" });
        sink.nontrivial += 1;
    }
    Ok(())
}

fn f64_finite(g: &Geometry<f64>) -> bool {
    match g {
        Geometry::Point(p) => p.x().is_finite() && p.y().is_finite(),
        Geometry::Rect(r) => r.max().x.is_finite() && r.max().y.is_finite() && r.min().x.is_finite() && r.min().y.is_finite(),
        Geometry::Line(l) => l.end.x.is_finite() && l.end.y.is_finite(),
        Geometry::LineString(l) => l.0.iter().all(|c| c.x.is_finite() && c.y.is_finite()),
        Geometry::Polygon(p) => p.exterior().0.iter().all(|c| c.x.is_finite() && c.y.is_finite()),
    }
}

/// Data of all kinds, so that on the sphere box comparators meet data they cannot be measured against.
fn mixed() -> Vec<Shape> {
    vec![
        pt(1.0, 1.0),
        ln(1.0, 5.0, 3.0, 7.0),
        rc(5.0, 5.0, 6.0, 7.0),
        Shape::Pg(vec![(5.0, 1.0), (7.0, 1.0), (7.0, 3.0)], vec![]),
        Shape::Ls(vec![(3.0, 3.0), (5.0, 3.0), (5.0, 5.0)]),
        pt(7.5, 7.5),
        rc(2.0, 2.0, 3.0, 3.0),
        ln(6.5, 6.5, 7.5, 6.5),
        pt(4.0, 4.0),
    ]
}

/// Long linestrings and polygons with one bad coordinate or one bad ring, wherever it is.
fn broken(tier: Tier) -> Space {
    let ns: &[usize] = if tier == Tier::Quick { &[2, 3, 5, 9, 17, 33] } else { &[2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 17, 18, 32, 33, 34, 64, 65, 66, 129] };
    let cases: Vec<(usize, usize)> = ns.iter().flat_map(|n| (0..*n).map(|k| (*n, k))).collect();
    let what = format!("linestrings and polygons of up to {} vertices with any one coordinate not a number or infinite, and plates with any one hole empty, of a single vertex or with such a coordinate, as comparators and (plates) as data", ns[ns.len() - 1]);
    Space::cases("broken", &what, cases, |(n, k), sink| {
        let (nan, inf) = (f64::NAN, f64::INFINITY);
        let mut cs: Vec<Geometry<f64>> = vec![];
        let mut plates: Vec<Geometry<f64>> = vec![];
        for (x, y) in [(nan, 3.0), (3.0, nan), (nan, nan), (inf, 3.0), (3.0, -inf), (nan, inf)] {
            let mut v = vertices::spike(*n, *k, 0.5);
            v[*k] = (x, y);
            cs.push(Shape::Ls(v.clone()).geom());
            v.push((7.0, 6.0));
            v.push((0.0, 6.0));
            cs.push(Shape::Pg(v, vec![]).geom());
        }
        let Shape::Pg(outer, holes) = vertices::plate(*n) else { unreachable!() };
        let at = holes[*k][0];
        for bad in [vec![], vec![at], vec![at, (nan, 2.5), (at.0, 2.5)], vec![at, (at.0, 2.5), (at.0, inf)]] {
            let mut h = holes.clone();
            h[*k] = bad;
            plates.push(Shape::Pg(outer.clone(), h).geom());
        }
        cs.extend(plates.iter().cloned());
        for kind in [Kind::P, Kind::B] {
            for lim in [Some((3u8, 1usize)), None] {
                let cfg = Cfg { kind, b: UNIT, calc: CalcMethod::Euclidean, lim };
                let mut t = mk(&cfg);
                for (i, c) in [(1.0, 1.0), (5.0, 7.0), (4.0, 4.0)].iter().enumerate() {
                    t.insert(i, pt(c.0, c.1).geom()).ok();
                }
                for g in &cs {
                    sink.at(|| format!("{} with 3 data; searches with comparator {g:?}", cfg.code()));
                    sink.evals += 1;
                    sink.transitions += 6;
                    sink.nontrivial += 1;
                    let bad = Err(Error::InvalidDistance);
                    let f = [t.find(g), t.find_r(g, 1.0), t.find_r(g, inf)];
                    let kn = [t.knn(g, 1), t.knn(g, 9), t.knn_r(g, 2, 0.5)];
                    let s: Vec<_> = t.sorted(g).take(9).collect();
                    let res = if f.iter().any(|f| *f != bad.map(|_: ()| (0, 0.0))) || kn.iter().any(|k| *k != Err(Error::InvalidDistance)) || !s.is_empty() {
                        Err(format!("comparator {g:?} cannot be measured, yet find gives {f:?}, knn {kn:?} and sorted {s:?}"))
                    } else {
                        Ok(())
                    };
                    sink.out("unmeasurable comparator");
                    sink.judge(res, || (format!("{} with 3 points; comparator {g:?}", cfg.code()), String::new()))?;
                }
                if kind == Kind::P {
                    continue;
                }
                for g in &plates {
                    let mut t = mk(&cfg);
                    for i in 0..4 {
                        let ok = if i == 2 { t.insert(9, g.clone()) } else { t.insert(i, pt(1.0 + i as f64, 6.0).geom()) };
                        sink.judge(ok.map_err(|e| format!("{g:?} is refused: {e:?}")), || (cfg.code(), String::new()))?;
                    }
                    let c = pt(1.0, 7.0).geom();
                    sink.at(|| format!("{} with 3 points and {g:?}; searches from (1, 7)", cfg.code()));
                    sink.evals += 1;
                    sink.transitions += 3;
                    sink.nontrivial += 1;
                    let kn = [t.knn(&c, 4), t.knn(&c, 40)];
                    let s: Vec<usize> = t.sorted(&c).map(|h| h.0).take(9).collect();
                    let res = if kn.iter().any(|k| *k != Err(Error::InvalidDistance)) || s != [0, 1, 3] {
                        Err(format!("datum {g:?} (9) cannot be measured, yet knn gives {kn:?} and sorted {s:?}"))
                    } else {
                        Ok(())
                    };
                    sink.out("unmeasurable datum");
                    sink.judge(res, || (format!("{} with 3 points and {g:?}", cfg.code()), String::new()))?;
                }
            }
        }
        sink.traces += 1;
        Ok(())
    })
}

pub fn c15(tier: Tier) -> Vec<Space> {
    let q = tier == Tier::Quick;
    let globe = Frame::new(-2.0, -1.0, 0.5, 0.25);
    let lims = [Some((3u8, 1usize)), Some((0, 0)), Some((2, 2)), None, Some((5, 1)), Some((1, 0))];
    let lims = if q { &lims[..4] } else { &lims[..] };
    let mut v = vec![];
    for kind in [Kind::P, Kind::B] {
        let syms = match kind {
            Kind::P => pt_syms()[..10].to_vec(),
            Kind::B => mixed(),
        };
        let n = if q { 6 } else { 9 };
        for (calc, fr) in [(CalcMethod::None, Frame::ID), (CalcMethod::Euclidean, Frame::ID), (CalcMethod::Euclidean, frames()[2]), (CalcMethod::Spherical, globe)] {
            let tag = format!("{calc:?}{}-{kind:?}", if fr.ox == 0.0 || matches!(calc, CalcMethod::Spherical) { "" } else { "-shifted" });
            let mut ws = worlds(kind, &[fr], calc, lims, &syms, &comparators());
            ws.iter_mut().for_each(|w| w.add_cmps(&hairs(&w.cfg.b)));
            v.push(hist_space(&format!("errors-subset-{tag}"), ws.clone(), Fam::Sub { n }, 4, check));
            v.push(hist_space(&format!("errors-seq-{tag}"), ws, Fam::Seq { n: 5, l: if q { 2 } else { 4 } }, 10, check));
        }
        for (calc, fr) in [(CalcMethod::None, Frame::ID), (CalcMethod::Euclidean, Frame::ID), (CalcMethod::Spherical, globe)] {
            let ws = worlds(kind, &[fr], calc, &lims[..2], &syms, &[]);
            v.push(hist_space(&format!("weird-{calc:?}-{kind:?}"), ws, Fam::Sub { n: if q { 4 } else { 7 } }, 1, weird));
        }
    }
    // A line of a single vertex can be stored; it measures to a non-finite value on the sphere and
    // cannot be measured in the plane
    let mut syms = mixed()[..5].to_vec();
    syms.insert(1, Shape::Ls(vec![(6.0, 2.0)]));
    syms.insert(3, Shape::Ls(vec![(1.0, 6.0)]));
    for (calc, fr) in [(CalcMethod::Spherical, globe), (CalcMethod::Euclidean, Frame::ID)] {
        let ws = worlds(Kind::B, &[fr], calc, lims, &syms, &comparators());
        v.push(hist_space(&format!("errors-single-vertex-{calc:?}"), ws, Fam::Sub { n: 7 }, 4, check));
    }
    // Comparators of many vertices of which one at most touches the bounds
    let mut cmps = vec![];
    for n in if q { vec![3, 9, 17, 65] } else { vertices::counts(Tier::Quick) } {
        for k in (0..n).step_by(1 + n / 8) {
            for to in [8.0f64, 8.0f64.next_up(), 9.0, 5.0] {
                let up = Frame::new(0.0, 6.0, 1.0, 1.0);
                cmps.extend([up.s(&vertices::spike_ls(n, k, to - 6.0)), vertices::swap(&up.s(&vertices::spike_pg(n, k, to - 6.0)))]);
            }
        }
    }
    for kind in [Kind::P, Kind::B] {
        let syms = match kind {
            Kind::P => pt_syms()[..3].to_vec(),
            Kind::B => mixed()[..3].to_vec(),
        };
        v.push(hist_space(&format!("errors-vertices-{kind:?}"), worlds(kind, &[Frame::ID], CalcMethod::Euclidean, &lims[..1], &syms, &cmps), Fam::Sub { n: 3 }, 1, check));
    }
    v.push(broken(tier));
    v
}
