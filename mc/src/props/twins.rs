//! Data that cannot be told apart: of a zero-sized type, and references to one and the same geometry.

use super::*;
use crate::model::{Kind, Model};
use geo::{Point, Rect};

/// A zero-sized datum at a fixed place.
#[derive(Debug, Clone, Copy, PartialEq)]
struct Home;
static HOME: Point<f64> = Point(geo::Coord { x: 1.0, y: 3.0 });
impl AsPoint<f64> for Home {
    fn as_point(&self) -> Point<f64> {
        HOME
    }
}
impl AsGeom<f64> for Home {
    fn as_geom(&self) -> GeometryRef<'_, f64> {
        GeometryRef::Point(&HOME)
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    Size,
    Iter,
    Retrieve,
    Find,
    Knn,
    Sorted,
    Show,
}

/// The printed cells are those of the model.
pub fn same_cells(text: &str, model: &Model<f64>) -> Result<(), String> {
    let lines = parse(text)?;
    let cells = model.cells();
    ensure!(lines.len() == cells.len(), "{} cells printed, {} expected", lines.len(), cells.len());
    for (l, c) in lines.iter().zip(cells) {
        let ok = l.indent == 4 * c.depth && (l.x - c.b.x1).abs() <= 0.0051 && (l.y - c.b.y1).abs() <= 0.0051 && l.n == c.own.len();
        ensure!(ok, "cell printed as {l:?}, expected depth {} low corner ({}, {}) holding {}", c.depth, c.b.x1, c.b.y1, c.own.len());
    }
    Ok(())
}

macro_rules! counts {
    ($what:literal, $t:expr, $n:expr, $d:expr, $op:expr, $cmps:expr, $model:expr) => {{
        let run = || -> Result<(), String> {
            let (t, n, d, op, cmps): (_, usize, _, Op, &[(Geometry<f64>, f64)]) = (&$t, $n, $d, $op, $cmps);
    let cap = 2 * n + 16;
    match op {
        Op::Size => ensure!(t.size() == n, "size() is {}, {n} are stored", t.size()),
        Op::Iter => {
            let c = t.into_iter().take(cap).count();
            ensure!(c == n, "iteration yields {c} data, {n} are stored");
        }
        Op::Show => {
            let text = format!("{t}");
            let c: usize = parse(&text)?.iter().map(|l| l.n).sum();
            ensure!(c == n, "the printed counts sum to {c}, {n} are stored");
            let (kind, at, lim): (Kind, B, (u8, usize)) = $model;
            let mut model = Model::new(kind, UNIT.into(), lim.0 as usize, lim.1);
            for _ in 0..n {
                model.insert(at.into());
            }
            same_cells(&text, &model)?;
        }
        Op::Retrieve => {
            let c = t.retrieve(d).take(cap).count();
            ensure!(c == n, "retrieve of the datum yields {c} data, {n} are stored");
        }
        Op::Find => {
            for (g, dist) in cmps {
                let f = t.find(g).map(|h| h.1);
                ensure!(if n == 0 { f == Err(Error::Empty) } else { f == Ok(*dist) }, "find({g:?}) gives {f:?} for {n} data at {dist}");
            }
        }
        Op::Knn => {
            for (g, dist) in cmps {
                for k in [0, 1, n / 2, n.saturating_sub(1), n, n + 1, usize::MAX] {
                    for (r, within) in [(f64::INFINITY, n), (*dist, n), (dist * 0.5 - 0.001, 0)] {
                        let got = if r.is_infinite() { t.knn(g, k) } else { t.knn_r(g, k, r) };
                        let got = got.map(|v| v.iter().map(|h| h.1).collect::<Vec<_>>());
                        ensure!(got.as_ref().is_ok_and(|v| v.len() == k.min(within) && v.iter().all(|d| d == dist)), "knn({g:?}, {k}, {r}) gives {got:?} for {n} data at {dist}");
                    }
                }
            }
        }
        Op::Sorted => {
            for (g, dist) in cmps {
                let v: Vec<f64> = t.sorted(g).map(|h| h.1).take(cap).collect();
                ensure!(v.len() == n && v.iter().all(|d| d == dist), "sorted({g:?}) gives {v:?} for {n} data at {dist}");
            }
        }
    }
            Ok(())
        };
        run().map_err(|m| format!(concat!($what, ": {}"), m))
    }};
}

/// Everything from none to a few dozen (quick) or hundred of them.
pub fn twins(tier: Tier, ops: &'static [Op]) -> Space {
    let top = if tier == Tier::Quick { 40 } else { 200 };
    many("twins", (0..=top).collect(), ops)
}

/// Past what a byte and what two bytes count.
pub fn hordes(_: Tier, ops: &'static [Op]) -> Space {
    // Sorted iteration takes quadratic time over data on one place
    let n = if ops.contains(&Op::Sorted) { vec![255, 256, 257, 1024, 4099] } else { vec![255, 256, 257, 1024, 65535, 65536, 65537] };
    many("hordes", n, ops)
}

fn many(name: &str, stops: Vec<usize>, ops: &'static [Op]) -> Space {
    let top = stops[stops.len() - 1];
    let big = top > 1000;
    let lims: Vec<(u8, usize)> = if big { vec![(0, 4), (3, 4), (20, 5), (1, 65535), (2, 65536), (1, 1), (0, 0), (200, 60000)] } else { [0u8, 1, 3, 4, 20].iter().flat_map(|d| [0usize, 1, 2, 4, 5, 16, 64].map(|c| (*d, c))).collect() };
    let what = format!("{}..={top} data of a zero-sized type, and references to one geometry, in trees of both kinds under {} settings: every datum counts ({ops:?})", stops[0], lims.len());
    Space::new(name, what, lims.len(), move |i, sink| {
        let (d, c) = lims[i];
        let b = UNIT.rect();
        let e = CalcMethod::Euclidean;
        let cmps: Vec<(Geometry<f64>, f64)> = [pt(1.0, 3.0), pt(4.0, 7.0), rc(1.0, 0.0, 8.0, 1.0)].iter().map(|s| (s.geom(), dist_e(s, &pt(1.0, 3.0)))).collect();
        let mut zp: PointQuadTree<Home, f64> = PointQuadTree::new(b, e, d, c);
        let mut zb: BoundsQuadTree<Home, f64> = BoundsQuadTree::new(b, e, d, c);
        let p = Geometry::from(HOME);
        let r = Geometry::from(Rect::new(HOME.0, HOME.0));
        let mut rp: BoundsQuadTree<GeometryRef<'_, f64>, f64> = BoundsQuadTree::new(b, e, d, c);
        let mut rr: BoundsQuadTree<GeometryRef<'_, f64>, f64> = BoundsQuadTree::new(b, e, d, c);
        // Reaching over the middle, it can go to no sub-cell
        let mid = rc(3.0, 2.0, 5.0, 6.0);
        let m = mid.geom();
        let mut rm: BoundsQuadTree<GeometryRef<'_, f64>, f64> = BoundsQuadTree::new(b, e, d, c);
        let mids: Vec<(Geometry<f64>, f64)> = [pt(1.0, 3.0), pt(4.0, 7.0), rc(1.0, 0.0, 8.0, 1.0)].iter().map(|s| (s.geom(), dist_e(s, &mid))).collect();
        let home = B::new(1.0, 3.0, 1.0, 3.0);
        for n in 0..=top {
            sink.at(|| format!("{n} indistinguishable data, max_depth {d}, max_children {c}"));
            for op in if stops.contains(&n) { ops } else { &[][..] } {
                let mut k = crate::engine::H::new();
                k.add(i as u64);
                k.add(n as u64);
                sink.states.insert(k.0);
                sink.evals += 5;
                sink.transitions += 5;
                let res = counts!("zero-sized data in a point tree", zp, n, &Home, *op, &cmps, (Kind::P, home, (d, c)))
                    .and_then(|()| counts!("zero-sized data in a bounds tree", zb, n, &Home, *op, &cmps, (Kind::B, home, (d, c))))
                    .and_then(|()| counts!("references to one point in a bounds tree", rp, n, &p.as_geom(), *op, &cmps, (Kind::B, home, (d, c))))
                    .and_then(|()| counts!("references to one rect in a bounds tree", rr, n, &r.as_geom(), *op, &cmps, (Kind::B, home, (d, c))))
                    .and_then(|()| counts!("references to one rect over the middle of a bounds tree", rm, n, &m.as_geom(), *op, &mids, (Kind::B, mid.bbox().unwrap(), (d, c))));
                sink.judge(res, || (format!("max_depth {d}, max_children {c}, bounds {UNIT:?}, {n} data at (1, 3) or ((3, 2), (5, 6))"), String::new()))?;
            }
            sink.traces += 1;
            sink.nontrivial += (n > 1) as u64;
            sink.out(if n > 1 { "several" } else { "at most one" });
            let bad = [zp.insert(Home), zb.insert(Home), rp.insert(p.as_geom()), rr.insert(r.as_geom()), rm.insert(m.as_geom())].iter().any(|r| r.is_err());
            if bad {
                return sink.judge(Err(format!("insert number {n} is refused")), || (format!("max_depth {d}, max_children {c}"), String::new()));
            }
        }
        Ok(())
    })
}

/// Past what three (thorough: four) bytes count.
pub fn legion(tier: Tier) -> Space {
    let top: u64 = if tier == Tier::Quick { 1 << 24 } else { 1 << 32 };
    Space::new("legion", format!("one after another {} data of a zero-sized type in a point tree: the size is right at every power of two", top + 2), 1, move |_, sink| {
        let mut t: PointQuadTree<Home, f64> = PointQuadTree::new(UNIT.rect(), CalcMethod::None, 0, 4);
        sink.traces += 1;
        sink.nontrivial += 1;
        for n in 1..=top + 2 {
            if t.insert(Home).is_err() {
                return sink.judge(Err(format!("insert number {n} is refused")), || ("max_depth 0, max_children 4".to_string(), String::new()));
            }
            if (n - 1).is_power_of_two() || n.is_power_of_two() || (n + 1).is_power_of_two() {
                sink.evals += 1;
                sink.states.insert(n);
                let res = if t.size() as u64 == n { Ok(()) } else { Err(format!("size() is {}, {n} are stored", t.size())) };
                sink.judge(res, || ("max_depth 0, max_children 4".to_string(), String::new()))?;
            }
        }
        sink.transitions += top + 2;
        sink.out("counted");
        Ok(())
    })
}

/// A datum that knows how many of its kind are alive.
struct Alive {
    g: Geometry<f64>,
    n: std::rc::Rc<std::cell::Cell<isize>>,
}
impl Alive {
    fn new(g: &Geometry<f64>, n: &std::rc::Rc<std::cell::Cell<isize>>) -> Alive {
        n.set(n.get() + 1);
        Alive { g: g.clone(), n: n.clone() }
    }
}
impl Drop for Alive {
    fn drop(&mut self) {
        self.n.set(self.n.get() - 1);
    }
}
impl AsGeom<f64> for Alive {
    fn as_geom(&self) -> GeometryRef<'_, f64> {
        self.g.as_geom()
    }
}
impl AsPoint<f64> for Alive {
    fn as_point(&self) -> Point<f64> {
        match &self.g {
            Geometry::Point(p) => *p,
            _ => unreachable!(),
        }
    }
}

/// What is accepted is kept until the tree goes, once; what is refused is let go at once.
pub fn alive(tier: Tier) -> Vec<Space> {
    let e = CalcMethod::Euclidean;
    let (np, nb, l) = if tier == Tier::Quick { (7, 7, 4) } else { (9, 9, 5) };
    let pick = |v: Vec<Shape>, n: usize| -> Vec<Shape> {
        // The last ones are refused
        let m = v.len();
        v.into_iter().enumerate().filter(|(i, _)| *i < n - 2 || *i >= m - 2).map(|x| x.1).collect()
    };
    let mut v = vec![];
    for (kind, syms) in [(Kind::P, pick(pt_syms(), np)), (Kind::B, pick(sh_syms(), nb))] {
        let n = syms.len();
        let ws = worlds(kind, &frames()[..1], e, &LIMS[..8], &syms, &[pt(4.0, 4.0)]);
        let fam = Fam::Seq { n, l };
        let c = fam.count();
        v.push(Space::new(format!("alive-{kind:?}"), format!("{} in {} worlds, searched and dropped: how many values are alive after every step", fam.words(), ws.len()), ws.len() * n, move |ch, sink| {
            let (w, part) = (&ws[ch / n], ch % n);
            let (md, mc) = w.cfg.limits();
            macro_rules! go {
                ($ty:ident) => {
                    for i in (part..c).step_by(n) {
                        let h = fam.get(i);
                        let case = || (format!("tree {}, inserts {:?}", w.cfg.code(), h.iter().map(|s| &w.syms[*s]).collect::<Vec<_>>()), String::new());
                        sink.at(|| case().0);
                        let live = std::rc::Rc::new(std::cell::Cell::new(0));
                        let mut t: $ty<Alive, f64> = $ty::new(w.cfg.b.rect(), w.cfg.calc, md as u8, mc);
                        let mut bad = Ok(());
                        let mut kept = 0;
                        for (step, s) in h.iter().enumerate() {
                            kept += t.insert(Alive::new(&w.geoms[*s], &live)).is_ok() as isize;
                            if live.get() != kept && bad.is_ok() {
                                bad = Err(format!("after insert #{step} {} values are alive, {kept} were accepted", live.get()));
                            }
                        }
                        let some = t.find(&w.cgeoms[0]).is_ok() as usize + t.knn(&w.cgeoms[0], 3).map_or(0, |v| v.len()) + t.sorted(&w.cgeoms[0]).take(2).count() + t.into_iter().take(2).count();
                        std::hint::black_box(some);
                        if live.get() != kept && bad.is_ok() {
                            bad = Err(format!("after searches {} values are alive, {kept} were accepted", live.get()));
                        }
                        drop(t);
                        if live.get() != 0 && bad.is_ok() {
                            bad = Err(format!("{} values are alive after the tree was dropped", live.get()));
                        }
                        sink.evals += h.len() as u64 + 2;
                        sink.transitions += h.len() as u64 + 4;
                        sink.traces += 1;
                        sink.nontrivial += (kept > 0) as u64;
                        sink.out(if kept == h.len() as isize { "all kept" } else { "some let go" });
                        let mut k = crate::engine::H::new();
                        k.add(ch as u64);
                        k.add(i as u64);
                        sink.states.insert(k.0);
                        sink.judge(bad, case)?;
                    }
                };
            }
            match w.cfg.kind {
                Kind::P => go!(PointQuadTree),
                Kind::B => go!(BoundsQuadTree),
            }
            Ok(())
        }));
    }
    v
}
