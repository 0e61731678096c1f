//! One long row of data, no two at the same distance: what a search has to rank when a single
//! cell, or the whole of its working set, holds tens of thousands of candidates.

use super::twins::Op;
use crate::model::{Bx, Kind, Model};
use super::*;
use geo::{Point, Rect, coord};

/// The `i`-th of the row, `2^-16` apart.
#[derive(Debug)]
struct Mark(usize, Geometry<f64>);
impl AsPoint<f64> for Mark {
    fn as_point(&self) -> Point<f64> {
        Point::new(self.0 as f64 * STEP, 0.0)
    }
}
impl AsGeom<f64> for Mark {
    fn as_geom(&self) -> GeometryRef<'_, f64> {
        self.1.as_geom()
    }
}

const STEP: f64 = 1.0 / 65536.0;
const SLACK: f64 = 1e-9;

fn mark(i: usize, boxed: bool) -> Mark {
    let x = i as f64 * STEP;
    Mark(i, if boxed { Geometry::from(Rect::new(coord! {x: x, y: 0.0}, coord! {x: x + STEP / 4.0, y: STEP})) } else { Geometry::from(Point::new(x, 0.0)) })
}

/// How far the `i`-th is from the place of the `c`-th.
fn off(i: usize, c: usize, boxed: bool) -> f64 {
    if i >= c { (i - c) as f64 * STEP } else { (c - i) as f64 * STEP - if boxed { STEP / 4.0 } else { 0.0 } }
}

fn same(hits: &[(usize, f64)], want: &[(f64, usize)], c: usize, boxed: bool) -> Result<(), String> {
    ensure!(hits.len() == want.len(), "{} data are returned instead of {}", hits.len(), want.len());
    let mut seen = std::collections::HashSet::new();
    for (j, ((id, d), (w, _))) in hits.iter().zip(want).enumerate() {
        ensure!((d - w).abs() <= SLACK, "number {j} is at {d}, but the datum of that rank is at {w}");
        ensure!((off(*id, c, boxed) - d).abs() <= SLACK, "number {j} is datum {id}, reported at {d}");
        ensure!(seen.insert(*id), "datum {id} comes twice, again as number {j}");
        ensure!(j == 0 || hits[j - 1].1 <= *d, "number {j} at {d} comes after one at {}", hits[j - 1].1);
    }
    Ok(())
}

macro_rules! ranked {
    ($t:expr, $n:expr, $op:expr, $boxed:expr, $lim:expr, $seq:expr) => {{
        let run = || -> Result<(), String> {
            let (t, n, op, boxed): (_, usize, Op, bool) = (&$t, $n, $op, $boxed);
            match op {
                Op::Size => ensure!(t.size() == n, "size() is {}, {n} are stored", t.size()),
                Op::Iter => {
                    let mut ids: Vec<usize> = t.into_iter().take(2 * n).map(|d| d.0).collect();
                    ids.sort();
                    ensure!(ids.len() == n && ids.iter().enumerate().all(|(i, d)| i == *d), "iteration yields {} data, not each of the {n} once", ids.len());
                }
                Op::Show => {
                    let (b, d, c) = $lim;
                    let mut model = Model::new(if boxed { Kind::B } else { Kind::P }, b, d as usize, c);
                    for j in $seq {
                        let (x, y) = if boxed { (j as f64 * STEP + STEP / 4.0, STEP) } else { (j as f64 * STEP, 0.0) };
                        model.insert(Bx { x1: j as f64 * STEP, y1: 0.0, x2: x, y2: y });
                    }
                    super::twins::same_cells(&format!("{t}"), &model)?;
                }
                Op::Retrieve => {
                    for c in [0, 1, n / 2, n - 1] {
                        let v: Vec<usize> = t.retrieve(&mark(c, boxed)).take(2 * n).map(|d| d.0).collect();
                        let set: std::collections::HashSet<_> = v.iter().collect();
                        ensure!(set.len() == v.len(), "retrieve of datum {c} yields one twice");
                        ensure!(set.contains(&c), "retrieve of datum {c} does not yield it among {}", v.len());
                    }
                }
                _ => {
                    for c in [0, n / 3, n - 1] {
                        let at = Point::new(c as f64 * STEP, 0.0);
                        let mut want: Vec<(f64, usize)> = (0..n).map(|i| (off(i, c, boxed), i)).collect();
                        want.sort_by(|a, b| a.0.total_cmp(&b.0));
                        match op {
                            Op::Find => {
                                for r in [0.0, STEP / 2.0, 1.0, f64::INFINITY] {
                                    let f = t.find_r(&at, r).map(|h| (h.0.0, h.1)).map_err(|e| format!("find_r({at:?}, {r}) fails: {e:?}"))?;
                                    same(&[f], &want[..1], c, boxed).map_err(|m| format!("find_r({at:?}, {r}): {m}"))?;
                                }
                            }
                            Op::Knn => {
                                for k in [1, 2, 1000, n / 2, n - 1, n, n + 1] {
                                    let far = want[n / 4].0 + STEP / 16.0;
                                    let within = want.iter().filter(|w| w.0 <= far).count();
                                    for (r, m) in [(f64::INFINITY, n), (far, within)] {
                                        let v = if r.is_finite() { t.knn_r(&at, k, r) } else { t.knn(&at, k) };
                                        let v: Vec<(usize, f64)> = v.map_err(|e| format!("knn_r({at:?}, {k}, {r}) fails: {e:?}"))?.iter().map(|h| (h.0.0, h.1)).collect();
                                        same(&v, &want[..k.min(m)], c, boxed).map_err(|m| format!("knn_r({at:?}, {k}, {r}): {m}"))?;
                                    }
                                }
                            }
                            _ => {
                                let v: Vec<(usize, f64)> = t.sorted(&at).take(2 * n).map(|h| (h.0.0, h.1)).collect();
                                same(&v, &want, c, boxed).map_err(|m| format!("sorted({at:?}): {m}"))?;
                            }
                        }
                    }
                }
            }
            Ok(())
        };
        run()
    }};
}

pub fn ranks(tier: Tier, calc: CalcMethod, ops: &'static [Op]) -> Space {
    let q = tier == Tier::Quick;
    // Sorted iteration takes quadratic time over what one cell holds
    let n = match (ops.contains(&Op::Sorted), q) {
        (true, true) => 20011,
        (true, false) => 66003,
        (false, true) => 66003,
        (false, false) => 66003 + 1000,
    };
    let lims: Vec<(u8, usize)> = if q { vec![(0, 1), (9, 20000), (20, 5)] } else { vec![(0, 1), (9, 20000), (20, 5), (1, 0), (4, 4), (255, 70000), (200, 1), (6, 1000)] };
    let mut all = vec![];
    for l in &lims {
        for kind in [Kind::P, Kind::B] {
            for order in 0..if q { 2 } else { 3 } {
                all.push((*l, kind, order));
            }
        }
    }
    let what = format!("a row of {n} data at distinct distances, inserted upwards, in a scattered order and downwards, in trees of both kinds under {} settings, asked from both ends and within ({ops:?}, {calc:?})", lims.len());
    Space::new(&format!("ranks-{calc:?}-{:?}", ops[0]), what, all.len(), move |i, sink| {
        let ((d, c), kind, order) = all[i];
        // Along the low edge, so that the cells are met from one end to the other
        let b = Rect::new(coord! {x: -0.25, y: 0.0}, coord! {x: 1.25, y: 1.5});
        let seq: Vec<usize> = match order {
            0 => (0..n).map(|j| (j * 7919) % n).collect(),
            1 => (0..n).collect(),
            _ => (0..n).rev().collect(),
        };
        let boxed = kind == Kind::B;
        let told = || (format!("{kind:?} tree, max_depth {d}, max_children {c}, {n} data {STEP} apart, insertion order {order}"), String::new());
        sink.at(|| told().0);
        let mut k = crate::engine::H::new();
        k.add(i as u64);
        sink.states.insert(k.0);
        sink.traces += 1;
        sink.nontrivial += 1;
        sink.evals += ops.len() as u64;
        sink.transitions += n as u64;
        sink.out("the whole row");
        macro_rules! go {
            ($t:ident) => {{
                let mut t: $t<Mark, f64> = $t::new(b, calc, d, c);
                for &j in &seq {
                    if let Err(e) = t.insert(mark(j, boxed)) {
                        return sink.judge(Err(format!("datum {j} is refused: {e:?}")), told);
                    }
                }
                for op in ops {
                    sink.judge(ranked!(t, n, *op, boxed, (Bx { x1: -0.25, y1: 0.0, x2: 1.25, y2: 1.5 }, d, c), seq.clone()), told)?;
                }
            }};
        }
        match kind {
            Kind::P => go!(PointQuadTree),
            Kind::B => go!(BoundsQuadTree),
        }
        Ok(())
    })
}
