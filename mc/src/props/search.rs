//! C06-C11, C15 and C16: searches against a plain scan of the accepted data, and independence of
//! order, tuning and kind.

use super::ranks::ranks;
use super::twins::{Op, hordes, twins};
use super::*;
use crate::model::Kind;
use std::sync::Arc;

/// What the scan says for one comparator: (distance, id) ascending. None if a stored datum cannot
/// be measured.
pub fn scan(r: &Run, c: usize) -> Option<Vec<(f64, usize)>> {
    let mut v = vec![];
    for id in &r.acc {
        v.push((r.w.table[c][r.hist[*id]]?, *id));
    }
    v.sort_by(|a, b| a.partial_cmp(b).unwrap());
    Some(v)
}

fn at(r: &Run, sink: &Sink, c: usize, op: &str) {
    sink.at(|| format!("{}\n  then {op} with comparator {:?}", r.describe(), r.w.cmps[c]));
}

/// Is (id, d) a stored datum with its right distance?
fn right(r: &Run, c: usize, hit: &(usize, f64)) -> Result<(), String> {
    let (id, d) = *hit;
    ensure!(r.acc.binary_search(&id).is_ok(), "returns #{id} which is not stored");
    let want = r.w.table[c][r.hist[id]].unwrap_or(f64::NAN);
    ensure!((d - want).abs() <= r.w.tol(want), "says #{id} {:?} is at distance {d}, it is at {want}", r.shape(id));
    Ok(())
}

pub fn find_check(r: &Run, sink: &mut Sink) -> Result<(), String> {
    if r.acc.is_empty() {
        return Ok(());
    }
    for c in 0..r.w.cmps.len() {
        let Some(sc) = scan(r, c) else { continue };
        let tol = r.w.tol(sc[0].0);
        at(r, sink, c, "find");
        let got = r.tree.find(&r.w.cgeoms[c]);
        sink.evals += 1;
        sink.transitions += 1;
        let min = sc[0].0;
        if sc.len() > 1 && sc[sc.len() - 1].0 > min + tol {
            sink.nontrivial += 1;
        }
        let v = match &got {
            Err(e) => Err(format!("fails with {e:?}, nearest is #{} at {min}", sc[0].1)),
            Ok(hit) => right(r, c, hit).and_then(|()| {
                ensure!(hit.1 <= min + tol, "returns #{} {:?} at {}, but #{} {:?} is at {min}", hit.0, r.shape(hit.0), hit.1, sc[0].1, r.shape(sc[0].1));
                Ok(())
            }),
        };
        v.map_err(|m| format!("find({:?}) {m}", r.w.cmps[c]))?;
        sink.out(if min == 0.0 { "nearest touches" } else { "nearest apart" });
    }
    Ok(())
}

/// Do all coordinates fit on one binary grid fine enough for products not to round?
fn short(shapes: &[&Shape]) -> bool {
    let (mut top, mut grain) = (0.0f64, f64::INFINITY);
    for c in shapes.iter().flat_map(|s| s.verts()) {
        for x in [c.0, c.1] {
            if x != 0.0 {
                let bits = x.abs().to_bits();
                let ulp = f64::from_bits(bits + 1) - x.abs();
                let low = ulp * (1u64 << (bits | 1 << 52).trailing_zeros()) as f64;
                top = top.max(x.abs());
                grain = grain.min(low);
            }
        }
    }
    top <= grain * (1 << 22) as f64
}

/// Radii that tell apart every outcome: (r, is the comparison with data at r exact).
fn radii(r: &Run, c: usize, sc: &[(f64, usize)], few: bool) -> Vec<f64> {
    let gap = |d: f64| r.w.tol(d) * 100.0;
    let mut v = vec![f64::INFINITY, -1.0];
    let exact = |d: f64, id: usize| -> bool {
        if !matches!(r.w.cfg.calc, CalcMethod::Euclidean) {
            return d == 0.0 && matches!((&r.w.cmps[c], r.shape(id)), (Shape::Pt(a), Shape::Pt(b)) if a == b);
        }
        match (&r.w.cmps[c], r.shape(id)) {
            (Shape::Pt(a), Shape::Pt(b)) => a.0 == b.0 || a.1 == b.1,
            (Shape::Rc(..), Shape::Rc(..)) => {
                let (a, b) = (r.w.cmps[c].bbox().unwrap(), r.shape(id).bbox().unwrap());
                (a.x1 <= b.x2 && b.x1 <= a.x2) || (a.y1 <= b.y2 && b.y1 <= a.y2)
            }
            // Contact of slanted edges is only certain where cross products do not round
            (a, b) => d == 0.0 && short(&[a, b]),
        }
    };
    let mut last = f64::NEG_INFINITY;
    let mut distinct = vec![];
    for (d, id) in sc {
        if *d > last + gap(*d) {
            distinct.push((*d, exact(*d, *id)));
            last = *d;
        } else if exact(*d, *id) {
            // Equal up to rounding: only exact if all of them are
            if let Some(l) = distinct.last_mut() {
                l.1 = l.1 && (l.0 == *d);
            }
        } else if let Some(l) = distinct.last_mut() {
            l.1 = false;
        }
    }
    for (i, (d, ex)) in distinct.iter().enumerate() {
        if few && i > 2 {
            break;
        }
        if *ex {
            v.push(*d);
            if *d == 0.0 {
                v.push(-0.0);
            } else if i < 2 {
                // The last radius that leaves it out
                v.push(d.next_down());
            }
        }
        if i == 0 && *d > gap(*d) {
            v.push(d / 2.0);
            v.push(0.0);
            v.push(d - gap(*d) / 4.0);
        }
        v.push(d + gap(*d) / 4.0);
        match distinct.get(i + 1) {
            Some((e, _)) => v.push((d + e) / 2.0),
            None => v.push(d * 1.5 + 1.0),
        }
    }
    v
}

/// find_r on the radii of every comparator.
pub fn find_r_check(few: bool) -> impl Fn(&Run, &mut Sink) -> Result<(), String> + Clone {
    move |r, sink| {
        if r.acc.is_empty() {
            return Ok(());
        }
        for c in 0..r.w.cmps.len() {
            let Some(sc) = scan(r, c) else { continue };
            let min = sc[0].0;
            let tol = r.w.tol(min);
            for rad in radii(r, c, &sc, few) {
                at(r, sink, c, &format!("find_r {rad:?}"));
                let got = r.tree.find_r(&r.w.cgeoms[c], rad);
                sink.evals += 1;
                sink.transitions += 1;
                let v = match &got {
                    Err(Error::NoneInRadius) if min > rad => {
                        sink.out("NoneInRadius");
                        sink.nontrivial += 1;
                        Ok(())
                    }
                    Err(e) => Err(format!("fails with {e:?}, nearest is #{} {:?} at {min}", sc[0].1, r.shape(sc[0].1))),
                    Ok(hit) => right(r, c, hit).and_then(|()| {
                        ensure!(min <= rad, "returns #{} at {} which is beyond the radius", hit.0, hit.1);
                        ensure!(hit.1 <= min + tol, "returns #{} at {}, but #{} is at {min}", hit.0, hit.1, sc[0].1);
                        sink.out(if rad == min {
                            "found at the radius"
                        } else if rad == f64::INFINITY {
                            "found, no limit"
                        } else {
                            "found within"
                        });
                        Ok(())
                    }),
                };
                v.map_err(|m| format!("find_r({:?}, {rad:?}) {m}", r.w.cmps[c]))?;
            }
        }
        Ok(())
    }
}

fn judge_list(r: &Run, c: usize, got: &[(usize, f64)], sc: &[(f64, usize)], n: usize) -> Result<(), String> {
    ensure!(got.len() == n, "yields {} data, expected {n}: {got:?}", got.len());
    let mut ids: Vec<usize> = got.iter().map(|g| g.0).collect();
    ids.sort_unstable();
    ids.dedup();
    ensure!(ids.len() == got.len(), "yields a datum twice: {got:?}");
    for (i, g) in got.iter().enumerate() {
        right(r, c, g)?;
        let tol = r.w.tol(sc[i].0);
        ensure!(i == 0 || got[i - 1].1 <= g.1 + tol, "is out of order: {got:?}");
        ensure!((g.1 - sc[i].0).abs() <= tol, "has distance {} in place {i}, expected {}: {got:?}", g.1, sc[i].0);
    }
    Ok(())
}

pub fn knn_check(few: bool) -> impl Fn(&Run, &mut Sink) -> Result<(), String> + Clone {
    move |r, sink| {
        let n = r.acc.len();
        let mut ks = vec![0, 1, 2, 3, 4, 5, 7, n / 2, n.saturating_sub(1), n, n + 1, usize::MAX];
        ks.sort_unstable();
        ks.dedup();
        if few {
            ks.retain(|k| *k <= 2 || *k >= n || *k == n / 2);
        }
        for c in 0..r.w.cmps.len() {
            let Some(sc) = scan(r, c) else { continue };
            for k in &ks {
                at(r, sink, c, &format!("knn k={k}"));
                let got = r.tree.knn(&r.w.cgeoms[c], *k);
                sink.evals += 1;
                sink.transitions += 1;
                let v = match &got {
                    Err(e) => Err(format!("fails with {e:?}")),
                    Ok(g) => judge_list(r, c, g, &sc, n.min(*k)),
                };
                v.map_err(|m| format!("knn({:?}, {k}) {m}", r.w.cmps[c]))?;
                if *k < n {
                    sink.nontrivial += 1;
                }
                sink.out(if *k == 0 {
                    "k=0"
                } else if *k < n {
                    "0<k<size"
                } else {
                    "k>=size"
                });
            }
            for rad in radii(r, c, &sc, true) {
                let within = sc.iter().filter(|s| s.0 <= rad).count();
                for k in [0, 1, within.saturating_sub(1), within, within + 1, usize::MAX] {
                    at(r, sink, c, &format!("knn_r k={k} r={rad:?}"));
                    let got = r.tree.knn_r(&r.w.cgeoms[c], k, rad);
                    sink.evals += 1;
                    sink.transitions += 1;
                    let v = match &got {
                        Err(e) => Err(format!("fails with {e:?}")),
                        Ok(g) => judge_list(r, c, g, &sc, within.min(k)),
                    };
                    v.map_err(|m| format!("knn_r({:?}, {k}, {rad:?}) {m}", r.w.cmps[c]))?;
                    sink.out(if within == 0 {
                        "none in radius"
                    } else if within < n {
                        "radius cuts"
                    } else {
                        "all in radius"
                    });
                }
            }
        }
        Ok(())
    }
}

pub fn sorted_check(every: usize) -> impl Fn(&Run, &mut Sink) -> Result<(), String> + Clone {
    move |r, sink| {
        let n = r.acc.len();
        for c in 0..r.w.cmps.len() {
            let Some(sc) = scan(r, c) else { continue };
            at(r, sink, c, "sorted");
            let cg = &r.w.cgeoms[c];
            let mut it = r.tree.sorted(cg);
            let (lo, hi) = it.size_hint();
            ensure!(lo <= n && hi.is_none_or(|h| h >= n), "sorted({:?}) has size_hint ({lo}, {hi:?}) but there are {n} data", r.w.cmps[c]);
            let got: Vec<(usize, f64)> = it.by_ref().take(2 * n + 16).collect();
            let after = (it.next(), it.next());
            sink.evals += 1;
            sink.transitions += n as u64 + 1;
            let mut v = judge_list(r, c, &got, &sc, n);
            if v.is_ok() && after != (None, None) {
                v = Err(format!("yields {after:?} after its end"));
            }
            v.map_err(|m| format!("sorted({:?}) {m}", r.w.cmps[c]))?;
            if n > 0 {
                let tol = r.w.tol(sc[0].0);
                let f = r.tree.find(cg).map(|h| h.1);
                ensure!(f.is_ok_and(|d| (d - got[0].1).abs() <= tol), "sorted({:?}) starts at {} but find says {f:?}", r.w.cmps[c], got[0].1);
                let k = n / 2 + 1;
                let kn = r.tree.knn(cg, k).map(|v| v.iter().map(|h| h.1).collect::<Vec<_>>());
                ensure!(
                    kn.as_ref().is_ok_and(|v| v.len() == k && v.iter().zip(&got).all(|(a, b)| (a - b.1).abs() <= r.w.tol(b.1))),
                    "sorted({:?}) starts {:?} but knn({k}) says {kn:?}",
                    r.w.cmps[c],
                    &got[..k]
                );
                if sc[n - 1].0 > sc[0].0 + tol {
                    sink.nontrivial += 1;
                    sink.out("several distances");
                } else {
                    sink.out("one distance");
                }
            } else {
                sink.out("empty");
            }
            if c % every == 0 {
                at(r, sink, c, "sorted, consumed in several styles,");
                r.tree.styles_sorted(cg, 2 * n + 16).map_err(|m| format!("sorted({:?}): {m}", r.w.cmps[c]))?;
            }
        }
        Ok(())
    }
}

type Check = Arc<dyn Fn(&Run, &mut Sink) -> Result<(), String> + Sync + Send>;

/// The planar spaces. `dense`: use the large comparator sets (cheap checks).
fn planar(tier: Tier, f: Check, g: Check, weight: usize) -> Vec<Space> {
    let q = tier == Tier::Quick;
    let e = CalcMethod::Euclidean;
    let fr = frames();
    let mut v = vec![];
    let go = |c: &Check| {
        let c = c.clone();
        move |r: &Run, s: &mut Sink| c(r, s)
    };
    let l = if q { 3 } else { 4 };
    let np = if q { 9 } else { 10 };
    let few = vec![fr[0], fr[2], fr[5]];
    let all = if !q && weight > 3 { few.clone() } else { fr.clone() };
    v.push(hist_space(&format!("seq{l}-P"), worlds(Kind::P, &all, e, &LIMS, &pt_syms()[..np], &cmps_small()), Fam::Seq { n: np, l }, 100, go(&f)));
    v.push(hist_space(
        &format!("seq{}-B", l - q as usize),
        worlds(Kind::B, &if q { few } else { all }, e, &LIMS[..8], &sh_syms()[..12], &cmps_small()),
        Fam::Seq { n: 12, l: l - q as usize },
        40,
        go(&f),
    ));
    v.push(hist_space("mult-P", worlds(Kind::P, &fr[..2], e, &LIMS[..8], &pt_syms()[..6], &cmps_small()), Fam::Mult { n: 6, m: if q { 2 } else { 3 } }, 60, go(&f)));
    v.push(hist_space("mult-B", worlds(Kind::B, &fr[..1], e, &LIMS[..6], &sh_syms()[..6], &cmps_small()), Fam::Mult { n: 6, m: if q { 1 } else { 2 } }, 20, go(&f)));
    // All subsets of lattices
    let lat = lattice(4, 0.0, 8.0);
    let m = if weight > 1 && q { 12 } else { 16 };
    v.push(hist_space(
        &format!("subset{m}-P"),
        worlds(Kind::P, &fr[..1], e, &[Some((3, 1)), Some((2, 2))], &lat[16 - m..], &cmps_small()),
        Fam::Sub { n: m },
        if q { 256 } else { 128 },
        go(&f),
    ));
    let rich = rich_shapes();
    let m = if weight > 1 && q { 8 } else if q { 10 } else { 12 };
    v.push(hist_space(
        &format!("subset{m}-B"),
        worlds(Kind::B, &fr[..1], e, if q { &[Some((2, 1))] } else { &[Some((2, 1)), Some((3, 0)), Some((3, 2)), None] }, &rich[..m], &if q { cmps_small() } else { cmps_large() }),
        Fam::Sub { n: m },
        if q { 32 } else { 8 },
        go(&f),
    ));
    // Points held by a bounds tree
    v.push(hist_space(
        "subset12-B-points",
        worlds(Kind::B, &fr[..1], e, &[Some((3, 1))], &lattice(4, 1.0, 7.0)[2..14], &cmps_small()),
        Fam::Sub { n: 12 },
        64,
        go(&f),
    ));
    // Long histories, many comparators
    for (name, ws, lists) in ladders(tier, e, &cmps_large()) {
        let keep = if q { 2 } else { 4 };
        let ws: Vec<World> = ws.into_iter().enumerate().filter(|(i, _)| i % (if q { 2 } else { 3 }) == 0).map(|x| x.1).collect();
        let every = lists[0].len().div_ceil(if weight > 1 { 3 } else { 6 });
        v.push(ladder_space(&name, ws, lists[..keep].to_vec(), every, go(&g)));
    }
    // Large capacities and great depths
    use super::layout::*;
    for (name, ws, lists) in wide(tier, e, &cmps_small()[..if weight > 1 { 5 } else { 11 }]) {
        let skip = if !q { 2 } else if weight > 1 { 4 } else { 2 };
        let ws: Vec<World> = ws.into_iter().step_by(skip).collect();
        v.push(planned_space(&name, ws, lists, "prefixes around the capacity", |w, n| wide_stops(w, n)[1..].to_vec(), go(&g)));
    }
    let e8 = 8.0 * 0.5f64.powi(30);
    let cs = [pt(0.0, 0.0), pt(8.0, 8.0), pt(4.0, 4.0), pt(e8, e8), pt(4.0 + e8, 4.0), pt(8.0 - e8, 0.0), pt(3.0, 5.5), rc(4.0, 4.0, 6.0, 6.0)];
    for (name, ws, lists) in deep(tier, e, &cs) {
        let ws: Vec<World> = ws.into_iter().step_by(if q { 2 } else { 1 }).collect();
        v.push(planned_space(&name, ws, lists, "the full length", |_, n| vec![n], go(&g)));
    }
    let cs = [pt(1.0, 1.0), pt(3.0, 5.5), pt(8.0, 0.0), rc(6.0, 3.0, 10.0, 5.0), ln(1.0, 6.0, 7.0, 2.0), rc(0.0, 0.0, 8.0, 8.0)];
    for kind in [Kind::P, Kind::B] {
        for (name, ws, lists) in massive(tier, e, kind, Frame::ID, &cs) {
            v.push(planned_space(&name, ws, lists, "several prefixes", massive_stops, go(&g)));
        }
    }
    for (name, ws, lists) in vertices::trees(tier, e, |s| s.to_vec(), UNIT, true) {
        let lists = lists[..if q && weight > 1 { 1 } else { lists.len() }].to_vec();
        v.push(planned_space(&name, ws, lists, "several prefixes", |_, n| vec![n / 2, n], go(&g)));
    }
    v.extend(super::zeros::spaces(tier, e, true, go(&g)));
    let cs: Vec<Shape> = super::catalog::comparators(tier).into_iter().step_by(if weight > 1 && !q { 3 } else { 1 }).collect();
    v.push(super::catalog::space("catalog-B", tier, &cs, go(&g)));
    v.push(super::catalog::points(tier, &cs, go(&g)));
    v
}

pub fn c06(t: Tier) -> Vec<Space> {
    let mut v = planar(t, Arc::new(find_check), Arc::new(find_check), 1);
    v.push(twins(t, &[Op::Find]));
    v.push(hordes(t, &[Op::Find]));
    v.push(ranks(t, CalcMethod::Euclidean, &[Op::Find]));
    v
}
pub fn c07(t: Tier) -> Vec<Space> {
    let mut v = planar(t, Arc::new(find_r_check(false)), Arc::new(find_r_check(true)), 2);
    v.extend(sphere(t, Arc::new(find_r_check(false)), Arc::new(find_r_check(true)), 3));
    v.push(ranks(t, CalcMethod::Euclidean, &[Op::Find]));
    v.push(ranks(t, CalcMethod::Spherical, &[Op::Find]));
    v
}
pub fn c08(t: Tier) -> Vec<Space> {
    let mut v = planar(t, Arc::new(knn_check(true)), Arc::new(knn_check(true)), 4);
    v.push(twins(t, &[Op::Knn]));
    v.push(hordes(t, &[Op::Knn]));
    v.push(ranks(t, CalcMethod::Euclidean, &[Op::Knn]));
    v
}
pub fn c09(t: Tier) -> Vec<Space> {
    let mut v = planar(t, Arc::new(sorted_check(4)), Arc::new(sorted_check(8)), 2);
    v.push(twins(t, &[Op::Sorted]));
    v.push(hordes(t, &[Op::Sorted]));
    v.push(ranks(t, CalcMethod::Euclidean, &[Op::Sorted]));
    v
}

// ---------------------------------------------------------------- sphere

/// Bounds in radians; coordinates landing on them up to rounding are snapped to them.
pub fn globe_bounds() -> Vec<B> {
    use std::f64::consts::{FRAC_PI_2, PI};
    vec![
        B::new(-PI, -FRAC_PI_2, PI, FRAC_PI_2),
        B::new(-PI, 1.2, PI, FRAC_PI_2),
        B::new(-3.125, -0.75, 3.125, 0.75),
        B::new(-0.25, 0.5, 0.5, 1.0),
        B::new(2.5, -0.625, PI, 0.5),
        B::new(-3.0, -FRAC_PI_2, 3.0, -1.0),
        B::new(-PI, -1.0, -0.5, 1.4),
        // A few hundred metres across on a globe like ours
        B::new(0.75, 0.75, 0.75 + 0.5f64.powi(14), 0.75 + 0.5f64.powi(14)),
    ]
}

pub fn on_globe(b: B, shapes: &[Shape]) -> Vec<Shape> {
    let snap = |v: f64, lo: f64, hi: f64| {
        if (v - lo).abs() < 1e-12 {
            lo
        } else if (v - hi).abs() < 1e-12 {
            hi
        } else {
            v
        }
    };
    shapes
        .iter()
        .map(|s| s.map(&|c| (snap(b.x1 + (b.x2 - b.x1) * c.0 / 8.0, b.x1, b.x2), snap(b.y1 + (b.y2 - b.y1) * c.1 / 8.0, b.y1, b.y2))))
        .collect()
}

fn sphere_worlds(kind: Kind, bs: &[B], lims: &[Option<(u8, usize)>], syms: &[Shape], cmps: &[Shape]) -> Vec<World> {
    let mut v = vec![];
    for b in bs {
        let base = World::new(kind, Frame::ID, *b, CalcMethod::Spherical, None, &on_globe(*b, syms), &on_globe(*b, cmps));
        for l in lims {
            let mut w = base.with(kind, *l);
            w.idx = v.len() as u64;
            v.push(w);
        }
    }
    v
}

fn sphere_cmps(n: usize) -> Vec<Shape> {
    // Off-lattice and border positions
    let mut v = vec![pt(4.0, 4.0), pt(0.25, 7.5), pt(7.75, 7.5), pt(0.0, 0.0), pt(8.0, 4.0), pt(0.0, 5.0), pt(3.0, 8.0), pt(6.0, 6.5), pt(1.0, 0.5), pt(2.25, 3.0), pt(7.0, 1.0)];
    if n > 1 {
        v.extend(lattice(if n > 2 { 13 } else { 6 }, 0.0, 8.0));
    }
    v
}

fn sphere_rects() -> Vec<Shape> {
    vec![
        rc(1.0, 1.0, 2.0, 2.0),
        rc(0.0, 6.0, 0.5, 7.5),
        rc(7.5, 6.0, 8.0, 7.0),
        rc(3.0, 3.0, 5.0, 5.0),
        rc(0.0, 2.0, 8.0, 3.0),
        rc(7.0, 0.0, 7.0, 8.0),
        rc(4.0, 4.0, 4.0, 4.0),
        rc(0.5, 7.5, 3.0, 8.0),
    ]
}

fn sphere(tier: Tier, f: Check, g: Check, weight: usize) -> Vec<Space> {
    let q = tier == Tier::Quick;
    let bs = globe_bounds();
    let mut v = vec![];
    let go = |c: &Check| {
        let c = c.clone();
        move |r: &Run, s: &mut Sink| c(r, s)
    };
    let few = weight > 2 && q;
    let lims = [Some((3, 1)), Some((2, 2)), None, Some((5, 1)), Some((1, 0)), Some((3, 0))];
    v.push(hist_space("globe-seq3-P", sphere_worlds(Kind::P, &bs, if q { &lims[..2] } else { &lims }, &pt_syms()[..8], &sphere_cmps(1)), Fam::Seq { n: 8, l: if few { 2 } else { 3 } }, 60, go(&f)));
    let lat = lattice(4, 0.0, 8.0);
    let m = if few { 8 } else if q { 10 } else { 14 };
    v.push(hist_space(&format!("globe-subset{m}-P"), sphere_worlds(Kind::P, &bs, if q { &lims[..1] } else { &lims[..3] }, &lat[16 - m..], &sphere_cmps(1)), Fam::Sub { n: m }, 64, go(&f)));
    // All kinds of data under point comparators
    let rich = rich_shapes();
    let m = if few { 6 } else if q { 8 } else { 11 };
    v.push(hist_space(&format!("globe-subset{m}-B"), sphere_worlds(Kind::B, &bs, if q { &lims[..1] } else { &lims[..4] }, &rich[..m], &sphere_cmps(if q { 1 } else { 2 })), Fam::Sub { n: m }, 32, go(&f)));
    // Point and rectangle data under rectangle comparators
    let mut pr = sphere_rects();
    pr.extend([pt(0.5, 7.0), pt(7.75, 7.5), pt(4.0, 4.0), pt(2.0, 0.5)]);
    let mut rcmps = sphere_rects();
    rcmps.extend([rc(5.0, 5.0, 6.0, 6.0), rc(0.0, 0.0, 0.25, 0.25), rc(7.75, 4.0, 8.0, 5.0), rc(2.0, 6.0, 2.5, 8.0)]);
    let m = if few { 7 } else if q { 9 } else { 12 };
    let mut prs = pr.clone();
    prs.rotate_right(4);
    v.push(hist_space(&format!("globe-rect-subset{m}-B"), sphere_worlds(Kind::B, &bs, if q { &lims[..1] } else { &lims[..4] }, &prs[..m], &rcmps), Fam::Sub { n: m }, 32, go(&f)));
    v.push(hist_space("globe-rect-seq2-B", sphere_worlds(Kind::B, &bs, &lims[..if q { 2 } else { 6 }], &pr, &rcmps), Fam::Seq { n: 12, l: 2 }, 30, go(&f)));
    v.push(hist_space("globe-rect-subset8-P", sphere_worlds(Kind::P, &bs, &lims[..2], &lat[4..12], &rcmps), Fam::Sub { n: 8 }, 32, go(&f)));
    // Long histories: dense lattices
    let n = if few { 9 } else if q { 13 } else { 17 };
    let dense = lattice(n, 0.0, 8.0);
    let ls = orders(dense.len());
    let every = dense.len().div_ceil(if q { 2 } else { 4 });
    v.push(ladder_space(
        &format!("globe-ladder-P{}", n * n),
        sphere_worlds(Kind::P, &bs, &lims[..if q { 2 } else { 5 }], &dense, &[sphere_cmps(2), if q { vec![] } else { rcmps.clone() }].concat()),
        ls[..if q { 1 } else { 3 }].to_vec(),
        every,
        go(&g),
    ));
    // Many small boxes: cells at depth near poles and the antimeridian
    let mut small = vec![];
    for p in lattice(if q { 5 } else { 8 }, 0.0, 7.75) {
        if let Shape::Pt((x, y)) = p {
            small.push(match small.len() % 3 {
                0 => rc(x, y, x + 0.25, y + 0.25),
                1 => pt(x, y),
                _ => rc(x, y, x + 0.25, y),
            });
        }
    }
    let ls = orders(small.len());
    let every = small.len().div_ceil(2);
    v.push(ladder_space(
        &format!("globe-ladder-B{}", small.len()),
        sphere_worlds(Kind::B, &bs, &lims[..if q { 2 } else { 5 }], &small, &[sphere_cmps(2), rcmps].concat()),
        ls[..if q { 2 } else { 4 }].to_vec(),
        every,
        go(&g),
    ));
    use super::layout::{massive, massive_stops};
    let cs = [pt(1.0, 1.0), pt(3.0, 5.5), pt(8.0, 0.0), pt(0.0, 6.0)];
    let rs = [pt(1.0, 1.0), pt(3.0, 5.5), pt(8.0, 0.0), pt(0.0, 6.0), rc(6.0, 3.0, 7.0, 5.0), rc(0.0, 5.0, 0.25, 6.0)];
    for (kind, cs) in [(Kind::P, &cs[..]), (Kind::B, &rs[..])] {
        for (name, ws, lists) in massive(tier, CalcMethod::Spherical, kind, Frame::ID, &[]) {
            // The same data spread over the globe's bounds
            let mut all = vec![];
            for w in &ws {
                for b in bs.iter().take(if q { 3 } else { 8 }) {
                    let mut x = World::new(kind, Frame::ID, *b, CalcMethod::Spherical, w.cfg.lim, &on_globe(*b, &w.syms), &on_globe(*b, cs));
                    x.idx = all.len() as u64;
                    all.push(x);
                }
            }
            v.push(planned_space(&format!("globe-{name}"), all, lists, "several prefixes", massive_stops, go(&g)));
        }
    }
    for (i, b) in bs.iter().enumerate().take(if q { 4 } else { 8 }) {
        for (name, ws, lists) in vertices::trees(tier, CalcMethod::Spherical, |s| on_globe(*b, s), *b, true) {
            let lists = if q { vec![lists[0].clone(), lists[lists.len() - 1].clone()] } else { lists };
            v.push(planned_space(&format!("globe{i}-{name}"), ws, lists, "the full length", |_, n| vec![n], go(&g)));
        }
    }
    // Points against all of the catalogue, boxes against its boxes and points
    let cs = super::catalog::comparators(tier);
    let (pc, bc): (Vec<Shape>, Vec<Shape>) = (cs.iter().filter(|s| matches!(s, Shape::Pt(_))).cloned().collect(), cs.iter().filter(|s| matches!(s, Shape::Rc(..))).cloned().collect());
    for (i, b) in bs.iter().enumerate() {
        for (name, cs, boxy) in [("points", &pc, false), ("boxes", &bc, true)] {
            let (ws, ls) = super::catalog::trees(tier, CalcMethod::Spherical, *b, |s| on_globe(*b, s), |s| !boxy || matches!(s, Shape::Pt(_) | Shape::Rc(..)), cs, &[Some((2, 1)), Some((1, 0))]);
            v.push(hist_space(&format!("globe{i}-catalog-{name}"), ws, Fam::List(ls.into()), 32, go(&g)));
        }
    }
    v.extend(super::zeros::spaces(tier, CalcMethod::Spherical, true, go(&f)).into_iter().map(|mut s| {
        s.name = format!("globe-{}", s.name);
        s
    }));
    v
}

pub fn c10(t: Tier) -> Vec<Space> {
    let f: Check = Arc::new(|r: &Run, s: &mut Sink| {
        find_check(r, s)?;
        find_r_check(true)(r, s)
    });
    let mut v = sphere(t, f.clone(), f, 1);
    v.push(ranks(t, CalcMethod::Spherical, &[Op::Find]));
    v
}

pub fn c11(t: Tier) -> Vec<Space> {
    let f: Check = Arc::new(|r: &Run, s: &mut Sink| {
        knn_check(true)(r, s)?;
        sorted_check(16)(r, s)
    });
    let mut v = sphere(t, f.clone(), f, 3);
    v.push(ranks(t, CalcMethod::Spherical, &[Op::Knn]));
    v.push(ranks(t, CalcMethod::Spherical, &[Op::Sorted]));
    v
}
