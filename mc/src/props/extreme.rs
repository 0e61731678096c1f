//! C20: extreme configurations and large trees.

use super::*;
use crate::model::Kind;
use crate::props::search::{find_check, find_r_check, knn_check, sorted_check};


/// Limits as printed, whatever the layout: nothing lost, nothing too deep, nothing overfull.
fn limits(r: &Run) -> Result<(), String> {
    let (md, mc) = r.w.cfg.limits();
    let n = r.acc.len();
    ensure!(r.tree.size() == n, "size() is {}, accepted are {n}", r.tree.size());
    let mut ids = r.tree.ids(2 * n + 16);
    ids.sort_unstable();
    ensure!(ids == r.acc, "iteration yields {} data, or others than the {n} accepted", ids.len());
    let l = parse(&r.tree.show())?;
    ensure!(l.iter().map(|l| l.n).sum::<usize>() == n, "the printed cells do not hold {n} data");
    for i in 0..l.len() {
        let d = l[i].indent / 4;
        let divided = l.get(i + 1).is_some_and(|x| x.indent > l[i].indent);
        ensure!(d <= md, "a cell at depth {d}, the limit is {md}");
        ensure!(divided || d == md || l[i].n <= mc, "an undivided cell at depth {d} holds {} data, the limit is {mc}", l[i].n);
    }
    Ok(())
}

/// Retrieval against a scan.
fn retrievals(r: &Run, shapes: &[Shape], sink: &mut Sink) -> Result<(), String> {
    let point = r.w.cfg.kind == Kind::P;
    for s in shapes {
        if point && !matches!(s, Shape::Pt(_)) {
            continue;
        }
        sink.at(|| format!("{}\n  then retrieve({s:?})", r.describe()));
        let mut got = r.tree.retrieve(&q(s), 2 * r.acc.len() + 16);
        sink.evals += 1;
        sink.transitions += 1;
        got.sort_unstable();
        let n = got.len();
        got.dedup();
        ensure!(got.len() == n, "retrieve({s:?}) yields a datum twice");
        ensure!(got.iter().all(|x| r.acc.binary_search(x).is_ok()), "retrieve({s:?}) yields something not stored");
        let Some(b) = s.bbox() else { continue };
        if !r.w.cfg.b.encloses(&b) {
            ensure!(got.is_empty(), "retrieve({s:?}) outside the bounds yields data");
            continue;
        }
        for id in &r.acc {
            let db = r.w.boxes[r.hist[*id]].unwrap();
            let must = if point { db == b } else { db.overlaps(&b) || r.shape(*id) == s };
            ensure!(!must || got.binary_search(id).is_ok(), "retrieve({s:?}) misses #{id} {:?}", r.shape(*id));
        }
    }
    Ok(())
}

fn all(r: &Run, sink: &mut Sink) -> Result<(), String> {
    for (i, x) in r.hist.iter().enumerate() {
        let inside = r.w.boxes[*x].is_some_and(|b| r.w.cfg.b.encloses(&b));
        ensure!(r.res[i].is_ok() == inside, "insert #{i} of {:?}, {} the bounds, gives {:?}", r.w.syms[*x], if inside { "inside" } else { "outside" }, r.res[i]);
    }
    limits(r)?;
    sink.evals += 1;
    sink.nontrivial += (r.model.root.kids.len() > 0) as u64;
    let deep = r.model.cells().iter().map(|c| c.depth).max().unwrap_or(0);
    if deep <= 40 {
        r.layout_matches()?;
    }
    sink.out(match deep {
        0 => "undivided",
        1..=16 => "depth 1-16",
        17..=64 => "depth 17-64",
        65..=254 => "depth 65-254",
        _ => "depth 255",
    });
    let mut qs: Vec<Shape> = r.w.cmps.clone();
    let mut seen = vec![];
    for id in &r.acc {
        if !seen.contains(&r.hist[*id]) && seen.len() < 12 {
            seen.push(r.hist[*id]);
            qs.push(r.shape(*id).clone());
        }
    }
    retrievals(r, &qs, sink)?;
    find_check(r, sink)?;
    find_r_check(true)(r, sink)?;
    knn_check(true)(r, sink)?;
    sorted_check(usize::MAX)(r, sink)
}

/// Symbols of a pattern, in unit coordinates, and the order in which they come.
fn pattern(kind: Kind, p: usize, n: usize) -> Option<(&'static str, Vec<Shape>, Vec<usize>)> {
    let inc = |v: Vec<Shape>| {
        let k = v.len();
        (v, (0..k).collect::<Vec<_>>())
    };
    let same = |v: Vec<Shape>| {
        let k = v.len();
        (v, (0..n).map(|i| i % k).collect::<Vec<_>>())
    };
    let t = |i: usize| 8.0 * i as f64 / n.max(2) as f64;
    let t2 = |i: usize| (t(i) * 64.0).round() / 64.0;
    let (name, (s, h)) = match (kind, p) {
        (_, 0) => ("at one inner position", same(vec![pt(1.0, 1.0)])),
        (_, 1) => ("at the low corner", same(vec![pt(0.0, 0.0)])),
        (_, 2) => ("at the centre", same(vec![pt(4.0, 4.0)])),
        (_, 3) => ("at the high corner and one inner position", same(vec![pt(8.0, 8.0), pt(5.0, 3.0)])),
        (_, 4) => ("along x", inc((0..n).map(|i| pt(t2(i), 4.0)).collect())),
        (_, 5) => ("along y", inc((0..n).map(|i| pt(2.0, t2(i))).collect())),
        (_, 6) => ("converging on a corner", inc((0..n.min(30)).map(|i| pt(8.0 / 2f64.powi(i as i32), 8.0 / 2f64.powi(i as i32))).collect())),
        (_, 7) => ("converging on the centre from above", inc((0..n.min(30)).map(|i| pt(4.0 + 4.0 / 2f64.powi(i as i32), 4.0)).collect())),
        (_, 8) => ("at corners and centre, alternating", same(vec![pt(0.0, 0.0), pt(8.0, 8.0), pt(4.0, 4.0), pt(0.0, 8.0), pt(8.0, 0.0)])),
        (_, 9) => {
            let m = (n as f64).sqrt() as usize;
            if m < 2 {
                return None;
            }
            ("on a lattice", inc(lattice(m, 0.0, 8.0).into_iter().map(|s| s.map(&|c| ((c.0 * 64.0).round() / 64.0, (c.1 * 64.0).round() / 64.0))).collect()))
        }
        (Kind::B, 10) => ("equal boxes over the centre", same(vec![rc(3.0, 3.0, 5.0, 5.0)])),
        (Kind::B, 11) => ("nested boxes", inc((0..n.min(30)).map(|i| rc(4.0 - 4.0 / 2f64.powi(i as i32), 4.0 - 4.0 / 2f64.powi(i as i32), 4.0 + 4.0 / 2f64.powi(i as i32), 4.0 + 2.0 / 2f64.powi(i as i32))).collect())),
        (Kind::B, 12) => ("boxes nested in a corner", inc((0..n.min(30)).map(|i| rc(0.0, 0.0, 8.0 / 2f64.powi(i as i32), 8.0 / 2f64.powi(i as i32))).collect())),
        (Kind::B, 13) => ("long thin boxes", inc((0..n).map(|i| rc(0.0, t2(i), 8.0, t2(i))).collect())),
        (Kind::B, 14) => ("mixed shapes", same(rich_shapes())),
        (Kind::B, 15) => ("the whole bounds and a point", same(vec![rc(0.0, 0.0, 8.0, 8.0), pt(1.0, 6.0)])),
        _ => return None,
    };
    Some((name, s, h))
}

const BOUNDS: [(&str, f64, f64); 5] = [("ordinary", 1.0, 1.0), ("zero width", 0.0, 1.0), ("zero height", 1.0, 0.0), ("a point", 0.0, 0.0), ("very thin", 1.0, 1.0 / 1024.0)];

/// The shape squeezed by factors; collapsed shapes that lose their kind are left out.
fn squeeze(s: &Shape, fx: f64, fy: f64) -> Option<Shape> {
    if (fx == 0.0 || fy == 0.0) && matches!(s, Shape::Pg(..)) {
        return None;
    }
    Some(s.map(&|c| (3.0 * (1.0 - fx) + c.0 * fx, 5.0 * (1.0 - fy) + c.1 * fy)))
}

fn grid(name: &str, kind: Kind, calc: CalcMethod, depths: Vec<u8>, caps: Vec<usize>, ns: Vec<usize>, nb: usize) -> Space {
    let mut jobs = vec![];
    for p in 0..16 {
        for n in &ns {
            if pattern(kind, p, *n).is_some() {
                for b in 0..nb {
                    for d in &depths {
                        jobs.push((p, *n, b, *d));
                    }
                }
            }
        }
    }
    let what = format!(
        "max_depth in {depths:?} x max_children in {caps:?} x {} patterns of {ns:?} data x {nb} bounds (ordinary, degenerate, thin): layout, iteration, retrieval and every search against a scan",
        (0..16).filter(|p| pattern(kind, *p, 9).is_some()).count()
    );
    Space::new(name, what, jobs.len(), move |ji, sink| {
        let (p, n, bi, d) = jobs[ji];
        let (_, s, h) = pattern(kind, p, n).unwrap();
        let (_, fx, fy) = BOUNDS[bi];
        let f = if matches!(calc, CalcMethod::Spherical) { Frame::new(-2.0, -1.0, 0.5, 0.25) } else { Frame::ID };
        // Symbols that survive the squeezing
        let mut map = vec![usize::MAX; s.len()];
        let mut syms = vec![];
        for (i, x) in s.iter().enumerate() {
            if let Some(y) = squeeze(x, fx, fy) {
                map[i] = syms.len();
                syms.push(y);
            }
        }
        let hist: Vec<usize> = h.iter().filter(|i| map[**i] != usize::MAX).map(|i| map[*i]).collect();
        let cmps: Vec<Shape> = match calc {
            CalcMethod::Spherical => vec![pt(4.0, 4.0), pt(0.5, 7.0), pt(8.0, 3.0)],
            _ => vec![pt(4.0, 4.0), pt(0.0, 0.0), pt(7.0, 3.0), rc(-1.0, -1.0, 9.0, 9.0), ln(0.0, 6.0, 8.0, 4.0)],
        }
        .iter()
        .filter_map(|c| squeeze(c, fx, fy))
        .collect();
        let bounds = squeeze(&UNIT.shape(), fx, fy).unwrap().bbox().unwrap();
        let base = World::new(kind, f, bounds, calc, None, &syms, &cmps);
        for c in &caps {
            // Deep trees over many places get out of hand
            let places = hist.iter().collect::<std::collections::HashSet<_>>().len();
            let cells = d as usize * if *c < hist.len() { places } else { 1 };
            let mut hist = hist.clone();
            if cells > 4000 {
                hist.truncate(4000 / d as usize);
            }
            let mut w = base.with(kind, Some((d, *c)));
            w.idx = (ji as u64 * 64).wrapping_add(*c as u64);
            let r = Run::exec(&w, &hist, sink);
            sink.states.insert(r.state());
            let v = all(&r, sink);
            sink.judge(v, || (r.describe(), r.code()))?;
        }
        Ok(())
    })
}

/// Run on a thread with a stack of the given size.
fn on_stack<R: Send>(kb: usize, f: impl FnOnce() -> R + Send) -> R {
    std::thread::scope(|sc| {
        let h = std::thread::Builder::new().stack_size(kb << 10).spawn_scoped(sc, f).expect("thread");
        match h.join() {
            Ok(r) => r,
            Err(e) => std::panic::resume_unwind(e),
        }
    })
}

#[derive(Clone, Debug)]
struct Big {
    name: &'static str,
    kind: Kind,
    calc: CalcMethod,
    lim: (u8, usize),
    /// Positions per side of a lattice, or of coincident data.
    n: usize,
    how: How,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum How {
    Lattice,
    Same,
    Boxes,
    Chains,
}

/// Large trees, every operation on a small stack, against a scan.
fn big(name: &str, cases: Vec<Big>) -> Space {
    let list: Vec<&str> = cases.iter().map(|c| c.name).collect();
    let what = format!("trees of up to some hundred thousand cells and data ({list:?}), every operation on a stack of 512 kB (sorted: 128 kB)");
    let mut jobs = vec![];
    for c in cases {
        for op in 0..8 {
            jobs.push((c.clone(), op));
        }
    }
    Space::new(name, what, jobs.len(), move |ji, sink| {
        let (c, op) = &jobs[ji];
        let sph = matches!(c.calc, CalcMethod::Spherical);
        let f = if sph { Frame::new(-2.0, -1.0, 0.5, 0.25) } else { Frame::ID };
        let data: Vec<Shape> = match c.how {
            How::Lattice => lattice(c.n, 0.0, 8.0),
            How::Same => vec![pt(5.0, 3.0); c.n],
            How::Boxes => lattice(c.n, 0.0, 7.5)
                .into_iter()
                .enumerate()
                .map(|(i, s)| match s {
                    Shape::Pt((x, y)) if i % 3 != 0 => rc(x, y, x + 4.0 / c.n as f64, y + 2.0 / c.n as f64),
                    s => s,
                })
                .collect(),
            How::Chains => (0..c.n).map(|i| pt(8.0 / 2f64.powi((i % 24) as i32), 8.0 / 2f64.powi((i / 24 % 24) as i32))).collect(),
        };
        let data: Vec<Shape> = data.iter().map(|s| f.s(s)).collect();
        let boxes: Vec<B> = data.iter().map(|s| s.bbox().unwrap()).collect();
        let cfg = Cfg { kind: c.kind, b: f.b(UNIT), calc: c.calc, lim: Some(c.lim) };
        let cmps: Vec<Shape> = if sph { vec![pt(0.25, 0.5), pt(6.0, 7.0)] } else { vec![rc(-1.0, -1.0, 9.0, 9.0), pt(4.0, 4.0), ln(0.0, 0.5, 8.0, 7.0)] };
        let cmps: Vec<Shape> = cmps.iter().map(|s| f.s(s)).collect();
        let tol = if sph { 1e-11 } else { 2e-12 };
        let n = data.len();
        let case = || format!("{} with {} data ({}); operation {op}", cfg.code(), n, c.name);
        sink.at(case);
        let tree = Force(on_stack(512, || {
            let mut t = Force(mk(&cfg));
            let bad = data.iter().enumerate().find_map(|(i, s)| t.0.insert(i, s.geom()).err().map(|e| (i, e)));
            (t, bad)
        }));
        let (Force(t), bad) = tree.0;
        sink.transitions += n as u64;
        sink.traces += 1;
        sink.nontrivial += 1;
        let mut h = crate::engine::H::new();
        h.add(ji as u64);
        sink.states.insert(h.0);
        if let Some((i, e)) = bad {
            return sink.judge(Err(format!("insert #{i} fails with {e:?}")), || (case(), String::new()));
        }
        let t = Force(t);
        let tr = &t;
        let perm = |v: &[usize]| {
            let mut seen = vec![false; n];
            v.iter().all(|i| *i < n && !std::mem::replace(&mut seen[*i], true))
        };
        let judge = |what: &str, got: &[(usize, f64)], sc: &[f64], best: &[f64], want: usize| -> Result<(), String> {
            ensure!(got.len() == want, "{what} yields {} data, expected {want}", got.len());
            ensure!(perm(&got.iter().map(|g| g.0).collect::<Vec<_>>()), "{what} yields a datum twice");
            for (i, (id, d)) in got.iter().enumerate() {
                ensure!((sc[*id] - d).abs() <= tol, "{what} says #{id} is at {d}, it is at {}", sc[*id]);
                ensure!((best[i] - d).abs() <= tol, "{what} has distance {d} in place {i}, expected {}", best[i]);
            }
            Ok(())
        };
        let scan = |c: &Shape| -> (Vec<f64>, Vec<f64>) {
            let sc: Vec<f64> = data.iter().map(|s| ref_dist(cfg.calc, c, s).unwrap_or(f64::NAN)).collect();
            let mut b = sc.clone();
            b.sort_by(|a, b| a.partial_cmp(b).unwrap());
            (sc, b)
        };
        let mut r = Ok(());
        match op {
            0 => {
                let (size, ids, show) = on_stack(512, || {
                    let t: &Force<AnyTree<f64>> = tr;
                    (t.0.size(), t.0.ids(2 * n + 16), t.0.show())
                });
                if size != n || ids.len() != n || !perm(&ids) {
                    r = Err(format!("size {size}, {} iterated, of {n} accepted", ids.len()));
                } else {
                    let l = parse(&show);
                    r = l.and_then(|l| {
                        ensure!(l.iter().map(|x| x.n).sum::<usize>() == n, "the printed cells do not hold {n} data");
                        for i in 0..l.len() {
                            let d = l[i].indent / 4;
                            let div = l.get(i + 1).is_some_and(|x| x.indent > l[i].indent);
                            ensure!(d <= c.lim.0 as usize && (div || d == c.lim.0 as usize || l[i].n <= c.lim.1), "cell {:?} breaks the limits {:?}", l[i], c.lim);
                        }
                        sink.out_n("cells", l.len() as u64);
                        Ok(())
                    });
                }
                sink.evals += 2;
            }
            1 => {
                let mut qs: Vec<Shape> = data.iter().step_by((n / 200).max(1)).cloned().collect();
                if c.kind == Kind::B {
                    qs.extend([rc(0.0, 0.0, 8.0, 8.0), rc(3.0, 3.0, 4.5, 5.0), rc(1.0, 1.0, 1.5, 7.0)].iter().map(|s| f.s(s)));
                }
                let qr = &qs;
                let got = on_stack(512, || {
                    let t: &Force<AnyTree<f64>> = tr;
                    qr.iter().map(|s| t.0.retrieve(&q(s), 2 * n + 16)).collect::<Vec<_>>()
                });
                for (s, g) in qs.iter().zip(&got) {
                    sink.evals += 1;
                    sink.transitions += 1;
                    let b = s.bbox().unwrap();
                    let mut has = vec![false; n];
                    let dup = g.iter().any(|i| *i >= n || std::mem::replace(&mut has[*i], true));
                    let miss = (0..n).find(|i| !has[*i] && if c.kind == Kind::P { boxes[*i] == b } else { boxes[*i].overlaps(&b) || data[*i] == *s });
                    if dup {
                        r = Err(format!("retrieve({s:?}) yields a datum twice"));
                    } else if let Some(i) = miss {
                        r = Err(format!("retrieve({s:?}) misses #{i} {:?}", data[i]));
                    }
                    if r.is_err() {
                        break;
                    }
                }
            }
            2 | 3 | 4 => {
                // sorted, in full for one comparator, the start for the others
                let ci = *op as usize - 2;
                if let Some(cs) = cmps.get(ci) {
                    let g = cs.geom();
                    let gr = &g;
                    // Quadratic in full
                    let take = if ci == 0 && n <= 20000 { n } else { 300.min(n) };
                    let (got, more) = on_stack(128, || {
                        let t: &Force<AnyTree<f64>> = tr;
                        let mut it = t.0.sorted(gr);
                        let v: Vec<(usize, f64)> = it.by_ref().take(take).collect();
                        (v, if take == n { it.next() } else { None })
                    });
                    let (sc, best) = scan(cs);
                    r = judge(&format!("sorted({cs:?})"), &got, &sc, &best, take);
                    if r.is_ok() && more.is_some() {
                        r = Err(format!("sorted({cs:?}) goes on after {n} data"));
                    }
                    sink.evals += 1;
                    sink.transitions += take as u64;
                }
            }
            _ => {
                let ci = *op as usize - 5;
                if let Some(cs) = cmps.get(ci) {
                    let g = cs.geom();
                    let gr = &g;
                    let (sc, best) = scan(cs);
                    // Time grows with the square of what is returned
                    let many = n > 80_000;
                    let third = if many { 900 } else { n / 3 };
                    let rad = best[third] * 0.5 + best[(third + 50).min(n - 1)] * 0.5;
                    let within = best.iter().filter(|d| **d <= rad).count();
                    let near = best.iter().any(|d| (d - rad).abs() < 1e-6);
                    let ks = if many { vec![1, 2, 17, 100, 1023, 1500] } else { vec![1, 2, 17, 100, n / 2, n, n + 1, usize::MAX] };
                    let ks = &ks;
                    let (f, kn, kr, fr) = on_stack(512, || {
                        let t: &Force<AnyTree<f64>> = tr;
                        let kn: Vec<_> = ks.iter().map(|k| t.0.knn(gr, *k)).collect();
                        (t.0.find(gr), kn, t.0.knn_r(gr, usize::MAX, rad), t.0.find_r(gr, rad))
                    });
                    let bad = |what: &str, e: Error| Err(format!("{what}({cs:?}) fails with {e:?}"));
                    r = match f {
                        Ok(h) => judge(&format!("find({cs:?})"), &[h], &sc, &best, 1),
                        Err(e) => bad("find", e),
                    };
                    for (k, v) in ks.iter().zip(kn) {
                        if r.is_ok() {
                            r = match v {
                                Ok(v) => judge(&format!("knn({cs:?}, {k})"), &v, &sc, &best, n.min(*k)),
                                Err(e) => bad("knn", e),
                            };
                        }
                    }
                    if r.is_ok() && (!near || rad == 0.0) {
                        r = match (kr, fr) {
                            (Ok(v), Ok(h)) => judge(&format!("knn_r({cs:?}, max, {rad})"), &v, &sc, &best, within).and_then(|()| judge(&format!("find_r({cs:?}, {rad})"), &[h], &sc, &best, 1)),
                            (Err(e), _) => bad("knn_r", e),
                            (_, Err(e)) => bad("find_r", e),
                        };
                    }
                    sink.evals += 11;
                    sink.transitions += 11;
                }
            }
        }
        // Dropping a large tree must not overflow either
        let Force(t) = t;
        let t = Force(t);
        on_stack(512, move || {
            let t = t;
            drop(t);
        });
        sink.out(c.name);
        sink.judge(r, || (case(), String::new()))
    })
}

pub fn c20(tier: Tier) -> Vec<Space> {
    let qk = tier == Tier::Quick;
    let mut v = vec![];
    let e = CalcMethod::Euclidean;
    let s = CalcMethod::Spherical;
    let mut caps: Vec<usize> = vec![0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 17, 31, 32, 33, 64, 255, 257, 65535, 65536];
    caps.extend(super::layout::VAST);
    for kind in [Kind::P, Kind::B] {
        let k = format!("{kind:?}");
        let shallow: Vec<u8> = vec![0, 1, 2, 3, 5, 8, 9, 15, 16, 17];
        let deep: Vec<u8> = vec![31, 32, 33, 63, 64, 65, 127, 128, 129, 200, 254, 255];
        if qk {
            v.push(grid(&format!("grid-{k}"), kind, e, shallow, caps.clone(), vec![1, 6, 20, 40], 5));
            v.push(grid(&format!("deep-{k}"), kind, e, deep, vec![0, 1, 5], vec![2, 6], 2));
            v.push(grid(&format!("many-{k}"), kind, e, vec![0, 2, 4, 7], vec![1, 4, 33, 70, 130, 257], vec![70, 260], 1));
            v.push(grid(&format!("sphere-{k}"), kind, s, vec![0, 4, 17, 255], vec![0, 1, 33], vec![6, 40], 2));
        } else {
            v.push(grid(&format!("grid-{k}"), kind, e, (0..=24).collect(), caps.clone(), vec![1, 2, 3, 5, 6, 9, 18, 20, 34, 40, 66, 100], 5));
            v.push(grid(&format!("deep-{k}"), kind, e, (25..=255).step_by(7).collect(), vec![0, 1, 5], vec![2, 6], 2));
            v.push(grid(&format!("deep-settings-{k}"), kind, e, deep, vec![0, 1, 2, 5, usize::MAX], vec![2, 6], 5));
            v.push(grid(&format!("many-{k}"), kind, e, vec![0, 2, 4, 7, 9], vec![0, 1, 4, 33, 70, 130, 257, 300], vec![70, 260, 520], 5));
            v.push(grid(&format!("sphere-{k}"), kind, s, vec![0, 1, 2, 4, 8, 17, 64, 128, 255], vec![0, 1, 2, 4, 8, 33], vec![1, 6, 40, 70], 5));
        }
    }
    use super::ranks::ranks;
    use super::twins::Op;
    v.push(ranks(tier, e, &[Op::Iter, Op::Size, Op::Retrieve, Op::Find, Op::Knn]));
    v.push(ranks(tier, e, &[Op::Sorted]));
    v.push(super::twins::legion(Tier::Quick));
    v.push(ranks(tier, s, &[Op::Find, Op::Knn]));
    let b = |name, kind, calc, lim, n, how| Big { name, kind, calc, lim, n, how };
    let mut cases = vec![
        b("lattice 64x64", Kind::P, e, (8, 1), 64, How::Lattice),
        b("lattice 64x64, no capacity", Kind::P, e, (7, 0), 64, How::Lattice),
        b("boxes 64x64", Kind::B, e, (8, 1), 64, How::Boxes),
        b("3000 at one position, default", Kind::P, e, (4, 4), 3000, How::Same),
        b("3000 at one position, deepest", Kind::B, e, (255, 1), 3000, How::Same),
        b("converging chains", Kind::P, e, (60, 1), 576, How::Chains),
        b("converging chains in a bounds tree", Kind::B, e, (60, 1), 576, How::Chains),
        b("spherical lattice 50x50", Kind::P, s, (8, 1), 50, How::Lattice),
        // More data and cells than two bytes count
        b("lattice 260x260", Kind::P, e, (9, 1), 260, How::Lattice),
        b("boxes 260x260", Kind::B, e, (9, 1), 260, How::Boxes),
        b("points 60x60 in a bounds tree", Kind::B, e, (10, 1), 60, How::Lattice),
    ];
    if !qk {
        cases.extend([
            b("lattice 130x130", Kind::P, e, (10, 1), 130, How::Lattice),
            b("boxes 130x130", Kind::B, e, (10, 1), 130, How::Boxes),
            b("boxes 100x100, no capacity", Kind::B, e, (7, 0), 100, How::Boxes),
            b("lattice 600x600", Kind::P, e, (11, 1), 600, How::Lattice),
            b("boxes 600x600", Kind::B, e, (11, 1), 600, How::Boxes),
            b("points 600x600 in a bounds tree, no capacity", Kind::B, e, (9, 0), 600, How::Lattice),
            b("20000 at one position", Kind::P, e, (255, 1), 20000, How::Same),
            b("spherical boxes 60x60", Kind::B, s, (8, 1), 60, How::Boxes),
            b("spherical lattice 100x100", Kind::P, s, (9, 2), 100, How::Lattice),
        ]);
    } else {
        cases.push(b("lattice 110x110", Kind::P, e, (8, 1), 110, How::Lattice));
    }
    v.push(big("big", cases));
    
    v
}
