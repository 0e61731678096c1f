//! C01-C05 and C16: admission, iteration, cell layout, retrieval, independence.

use super::ranks::ranks;
use super::twins::{Op, hordes, twins};
use super::*;
use crate::model::{Bx, Cell, Kind};

pub fn kinds() -> [(Kind, Vec<Shape>); 2] {
    [(Kind::P, pt_syms()), (Kind::B, sh_syms())]
}

/// Geometries at the edge of what has a bounding box, degenerate ones, and plain ones.
pub fn odd_syms() -> Vec<Shape> {
    vec![
        rc(1.0, 1.0, 2.0, 2.0),
        Shape::Ls(vec![]),
        Shape::Pg(vec![], vec![]),
        Shape::Ls(vec![(5.0, 5.0)]),
        Shape::Pg(vec![(4.0, 4.0)], vec![]),
        Shape::Pg(vec![(3.0, 3.0), (5.0, 3.0)], vec![]),
        Shape::Ls(vec![(6.0, 1.0), (6.0, 1.0), (6.0, 1.0)]),
        ln(2.0, 6.0, 2.0, 6.0),
        Shape::Ls(vec![(1.0, 1.0), (9.0, 1.0), (1.0, 2.0)]),
        Shape::Pg(vec![(1.0, 5.0), (3.0, 5.0), (3.0, 7.0)], vec![vec![(2.5, 5.5), (2.75, 5.5), (2.75, 6.0)]]),
        pt(8.0, 0.0),
    ]
}

/// Histories shared by the layout properties: (label, worlds, family, chunk size).
pub fn hist_families(tier: Tier) -> Vec<(String, Vec<World>, Fam, usize)> {
    let mut v = vec![];
    let q = tier == Tier::Quick;
    for (k, syms) in kinds() {
        let n = syms.len();
        let kn = format!("{k:?}");
        let fr = frames();
        // Every short sequence, in every configuration and frame
        v.push((format!("seq3-{kn}"), worlds(k, &fr, CalcMethod::Euclidean, &LIMS, &syms, &[]), Fam::Seq { n, l: 3 }, 400));
        // Longer sequences over the first symbols
        let l = if q { 5 } else { 6 };
        v.push((
            format!("seq{l}-{kn}"),
            worlds(k, &fr[..if q { 1 } else { 3 }], CalcMethod::Euclidean, &LIMS[..if q { 6 } else { 9 }], &syms[..7], &[]),
            Fam::Seq { n: 7, l },
            400,
        ));
        // Multiplicities push cells over every capacity, including the default one
        let (nn, m) = if q { (6, 3) } else { (7, 4) };
        v.push((format!("mult-{kn}"), worlds(k, &fr[..2], CalcMethod::Euclidean, &LIMS, &syms[..nn], &[]), Fam::Mult { n: nn, m }, 300));
        if k == Kind::B {
            let odd = odd_syms();
            let lims = [Some((3, 1)), Some((1, 0)), Some((2, 2)), None, Some((0, 0)), Some((5, 0))];
            v.push(("odd-B".into(), worlds(k, &fr[..1], CalcMethod::Euclidean, &lims, &odd, &[]), Fam::Seq { n: odd.len(), l: if q { 3 } else { 4 } }, 400));
        }
        // Only interior data: default-like capacities with many data
        let base: Vec<Shape> = match k {
            Kind::P => lattice(4, 0.0, 8.0).into_iter().chain(lattice(4, 1.0, 7.0)).step_by(if q { 3 } else { 2 }).collect(),
            Kind::B => rich_shapes(),
        };
        let nb = base.len();
        v.push((
            format!("subset-{kn}"),
            worlds(k, &fr[..1], CalcMethod::Euclidean, &[Some((3, 1)), Some((2, 2)), Some((4, 3)), None], &base, &[]),
            Fam::Sub { n: nb },
            256,
        ));
    }
    v
}

/// Long structured histories: lattices in fixed orders, larger capacities and depths.
pub fn ladders(tier: Tier, calc: CalcMethod, cmps: &[Shape]) -> Vec<(String, Vec<World>, Vec<Vec<usize>>)> {
    let q = tier == Tier::Quick;
    let lims: Vec<Option<(u8, usize)>> = [(3, 1), (2, 5), (5, 8), (6, 0), (4, 16), (8, 2), (5, 1), (3, 33)].into_iter().map(Some).chain([None]).collect();
    let lims = if q { &lims[..5] } else { &lims[..] };
    let fr = frames();
    let fr = if q { &fr[..2] } else { &fr[..] };
    let mut v = vec![];
    let np = if q { 9 } else { 13 };
    let lat = lattice(np, 0.0, 8.0);
    v.push((format!("ladder-P{}", np * np), worlds(Kind::P, fr, calc, lims, &lat, cmps), orders(lat.len())));
    // Boxes: a lattice of small boxes, plus straddlers and long thin ones
    let mut bx = vec![];
    let m = if q { 5 } else { 9 };
    for p in lattice(m, 0.0, 7.0) {
        if let Shape::Pt((x, y)) = p {
            bx.push(rc(x, y, x + 0.5, y + 0.5));
        }
    }
    for p in lattice(m - 1, 0.25, 6.75) {
        if let Shape::Pt((x, y)) = p {
            bx.push(match bx.len() % 5 {
                0 => rc(x, y, x + 1.25, y),
                1 => pt(x, y),
                2 => ln(x, y, x + 1.0, y + 1.0),
                3 => rc(x * 0.25, y, x + 1.0, y + 0.25),
                _ => Shape::Pg(vec![(x, y), (x + 1.0, y), (x, y + 1.0)], vec![]),
            });
        }
    }
    let n = bx.len();
    v.push((format!("ladder-B{n}"), worlds(Kind::B, fr, calc, lims, &bx, cmps), orders(n)));
    v
}

type Ladder = (String, Vec<World>, Vec<Vec<usize>>);

/// Large capacities: as many data as it takes to divide a cell that holds many, all in one
/// sub-cell, in two, in all, or all but one in one.
pub fn wide(tier: Tier, calc: CalcMethod, cmps: &[Shape]) -> Vec<Ladder> {
    let q = tier == Tier::Quick;
    let caps: &[usize] = if q {
        &[6, 7, 8, 9, 10, 12, 15, 16, 17, 24, 32, 33, 64]
    } else {
        &[5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 20, 23, 24, 25, 30, 31, 32, 33, 40, 48, 50, 63, 64, 65, 80, 96, 100, 127, 128, 129]
    };
    let depths: &[u8] = if q { &[1, 3] } else { &[1, 2, 3, 6] };
    let top = caps[caps.len() - 1] + 12;
    let mut lims: Vec<Option<(u8, usize)>> = depths.iter().flat_map(|d| caps.iter().map(|c| Some((*d, *c)))).collect();
    // Never reached, however few of their bits are looked at
    lims.extend(VAST.iter().map(|c| Some((2, *c))));
    let mut v = vec![];
    for kind in [Kind::P, Kind::B] {
        // For each quadrant a cluster, inside its first sub-cell but for every fifth
        let mut syms = vec![];
        for qd in 0..4 {
            let (ox, oy) = [(0.0, 0.0), (4.0, 0.0), (4.0, 4.0), (0.0, 4.0)][qd];
            for i in 0..top {
                let (a, b) = ((i % 12) as f64 / 8.0, (i / 12) as f64 / 8.0);
                let (mut x, y) = (ox + 0.25 + a, oy + 0.25 + b);
                if i % 5 == 4 {
                    x += 2.0;
                }
                syms.push(match (kind, i % 3) {
                    (Kind::B, 1) => rc(x, y, x + 0.125, y + 0.0625),
                    (Kind::B, 2) => ln(x, y, x + 0.0625, y + 0.125),
                    _ => pt(x, y),
                });
            }
        }
        let n = top;
        let mut lists: Vec<Vec<usize>> = vec![];
        for qd in 0..4 {
            lists.push((qd * n..(qd + 1) * n).collect());
        }
        for i in 0..4 {
            // Two quadrants in turn; one datum in one and the others elsewhere
            let j = (i + 1) % 4;
            lists.push((0..n).map(|k| if k % 2 == 0 { i * n + k } else { j * n + k }).collect());
            lists.push((0..n).map(|k| if k == 2 { j * n } else { i * n + k }).collect());
        }
        lists.push((0..n).map(|k| (k % 4) * n + k / 4).collect());
        // The same datum again and again
        lists.push(vec![1; n]);
        v.push((format!("wide-{kind:?}"), worlds(kind, &frames()[..1], calc, &lims, &syms, cmps), lists));
    }
    v
}

pub fn wide_stops(w: &World, n: usize) -> Vec<usize> {
    let c = w.cfg.limits().1;
    if c > n {
        return vec![0, n / 2, n];
    }
    let mut v: Vec<usize> = [c, c + 1, c + 2, c + 9].into_iter().filter(|i| *i <= n).collect();
    v.sort_unstable();
    v
}

/// Capacities that leave nothing, one or all ones when cut to 8, 16 or 32 bits.
pub const VAST: [usize; 10] = [1 << 8, (1 << 16) + 1, 1 << 31, 1 << 32, (1 << 32) + 1, 1 << 48, 1 << 63, (1 << 63) + 2, usize::MAX - 1, usize::MAX];

/// Great depths: data ever closer to a corner, the centre or a split line, so that cells divide
/// down to the limit.
pub fn deep(tier: Tier, calc: CalcMethod, cmps: &[Shape]) -> Vec<Ladder> {
    let q = tier == Tier::Quick;
    let ds: &[u8] = if q { &[9, 11, 16, 20, 33, 48] } else { &[8, 9, 10, 11, 12, 13, 15, 16, 17, 20, 24, 31, 32, 33, 40, 47, 48, 49] };
    let mut v = vec![];
    for kind in [Kind::P, Kind::B] {
        // Where all halvings stay exact; towards the origin there is no end
        let corners: [(f64, f64, f64, f64); 8] =
            [(0.0, 0.0, 1.0, 1.0), (8.0, 8.0, -1.0, -1.0), (8.0, 0.0, -1.0, 1.0), (0.0, 8.0, 1.0, -1.0), (4.0, 4.0, 1.0, 1.0), (4.0, 4.0, -1.0, 1.0), (2.0, 6.0, 1.0, -1.0), (0.0, 4.0, 1.0, 1.0)];
        for (name, lims, cs, top) in [
            ("deep", ds.iter().flat_map(|d| [1usize, 0, 2].map(|c| Some((*d, c)))).collect::<Vec<_>>(), &corners[..], 49i32),
            ("abyss", if q { vec![Some((64u8, 1usize)), Some((255, 1))] } else { vec![Some((64, 1)), Some((64, 3)), Some((127, 1)), Some((128, 1)), Some((200, 0)), Some((255, 1)), Some((255, 4))] }, &corners[..1], 250),
        ] {
            let mut syms = vec![];
            let mut lists = vec![];
            let step = if top > 50 { 7 } else { 3 };
            for (x, y, dx, dy) in cs {
                let from = syms.len();
                // Two near together at every distance, nearest last
                for k in (1..=top).filter(|k| k % step == 1 || *k > top - 2) {
                    let e = 8.0 * 0.5f64.powi(k);
                    let (px, py) = (x + dx * e, y + dy * e);
                    syms.push(match (kind, k % 2) {
                        (Kind::B, 0) => rc(px.min(*x), py.min(*y), px.max(*x), py.max(*y)),
                        _ => pt(px, py),
                    });
                }
                syms.push(pt(*x, *y));
                let mut l: Vec<usize> = (from..syms.len()).collect();
                lists.push(l.clone());
                l.reverse();
                // The corner itself more than once
                l.insert(1, syms.len() - 1);
                lists.push(l);
            }
            v.push((format!("{name}-{kind:?}"), worlds(kind, &frames()[..1], calc, &lims, &syms, cmps), lists));
        }
        // Bounds without width or height, or with next to none
        for (bi, b) in [B::new(3.0, 0.0, 3.0, 8.0), B::new(0.0, -5.0, 8.0, -5.0), B::new(0.0, 0.0, 8.0, f64::MIN_POSITIVE), B::new(3.0, -5.0, 3.0, -5.0)].into_iter().enumerate() {
            let mut syms = vec![];
            let mut lists = vec![];
            for (from, sg) in [(0.0, 1.0), (8.0, -1.0), (4.0, 1.0)] {
                let start = syms.len();
                let at = |t: f64| match bi {
                    0 => (b.x1, t),
                    3 => (b.x1, b.y1),
                    _ => (t, b.y1),
                };
                for k in (1..=40).filter(|k| k % 5 < 2) {
                    let (p, o) = (at(from + sg * 8.0 * 0.5f64.powi(k)), at(from));
                    syms.push(match (kind, k % 5) {
                        (Kind::B, 0) => rc(p.0, p.1, o.0, o.1),
                        _ => pt(p.0, p.1),
                    });
                }
                let o = at(from);
                syms.push(pt(o.0, o.1));
                let mut l: Vec<usize> = (start..syms.len()).collect();
                lists.push(l.clone());
                l.reverse();
                l.insert(1, syms.len() - 1);
                lists.push(l);
            }
            // Comparators must reach such bounds
            let (o, m, e) = match bi {
                0 => ((b.x1, 0.0), (b.x1, 3.0), (b.x1, 8.0)),
                3 => ((b.x1, b.y1), (b.x1, b.y1), (b.x1, b.y1)),
                _ => ((0.0, b.y1), (3.0, b.y1), (8.0, b.y1)),
            };
            let own: Vec<Shape> = match cmps.len() {
                0 => vec![],
                _ => [o, m, e].map(Shape::Pt).into_iter().chain([syms[syms.len() - 2].clone(), ln(o.0 - 1.0, o.1 - 1.0, o.0 + 1.0, o.1 + 1.0), rc(m.0 - 0.5, m.1 - 0.5, m.0 + 2.0, m.1 + 2.0)]).collect(),
            };
            let cmps = &own[..];
            let ws = [Some((20u8, 1usize)), Some((48, 1)), Some((33, 0)), None]
                .into_iter()
                .enumerate()
                .map(|(i, l)| {
                    let mut w = World::new(kind, Frame::ID, b, calc, l, &syms, cmps);
                    w.idx = i as u64;
                    w
                })
                .collect();
            v.push((format!("flat{bi}-{kind:?}"), ws, lists));
        }
    }
    v
}

pub fn deep_stops(_: &World, n: usize) -> Vec<usize> {
    let mut v: Vec<usize> = [2, 3, n / 2, n].into_iter().collect();
    v.dedup();
    v
}

/// Many data: hundreds at one place (past what a byte counts), and dense lattices of thousands.
pub fn massive(tier: Tier, calc: CalcMethod, kind: Kind, f: Frame, cmps: &[Shape]) -> Vec<Ladder> {
    let q = tier == Tier::Quick;
    let lims: &[Option<(u8, usize)>] = if q {
        &[Some((3, 4)), Some((0, 0)), Some((1, 256)), None]
    } else {
        &[Some((3, 4)), Some((0, 0)), Some((1, 256)), None, Some((1, 255)), Some((2, 254)), Some((10, 1)), Some((255, 2)), Some((4, 16)), Some((20, 257))]
    };
    let n = 300;
    let mut v = vec![];
    let point = kind == Kind::P;
    let some = |x: f64, y: f64, w: f64| if point { pt(x, y) } else { rc(x, y, x + w, y + w / 2.0) };
    // One place alone, then with others before, between and after
    let mut syms = vec![some(1.0, 1.0, 1.0), some(4.0, 4.0, 1.0)];
    syms.extend((0..7).map(|i| some(0.5 + i as f64, 7.0 - i as f64, 0.25)));
    let mut lists = vec![vec![0; n], vec![1; n]];
    lists.push((0..n).map(|i| if i % 40 == 17 { 2 + i / 40 % 7 } else { 0 }).collect());
    lists.push((0..n).map(|i| if i < 7 { 2 + i } else { 1 }).collect());
    v.push((format!("crowd-{kind:?}"), worlds(kind, &[f], calc, lims, &syms, cmps), lists));
    // A dense lattice
    let m = if q { 40 } else { 64 };
    let lims: &[Option<(u8, usize)>] = if q { &[None, Some((8, 1)), Some((3, 20))] } else { &[None, Some((8, 1)), Some((3, 20)), Some((2, 300)), Some((6, 0)), Some((12, 3))] };
    let mut syms = vec![];
    for p in lattice(m, 0.0, if point { 8.0 } else { 7.75 }) {
        if let Shape::Pt((x, y)) = p {
            // Keep coordinates short
            let (x, y) = ((x * 256.0).round() / 256.0, (y * 256.0).round() / 256.0);
            syms.push(some(x, y, if syms.len() % 3 == 0 { 0.25 } else { 0.125 }));
        }
    }
    let os = orders(syms.len());
    v.push((format!("dense-{kind:?}"), worlds(kind, &[f], calc, lims, &syms, cmps), vec![os[2].clone(), os[if q { 1 } else { 0 }].clone()]));
    v
}

pub fn massive_stops(_: &World, n: usize) -> Vec<usize> {
    if n <= 300 { vec![255, 256, 257, n] } else { vec![n / 2, n] }
}

fn whole(b: &[Shape]) -> Vec<Shape> {
    b.to_vec()
}

fn extremes(tier: Tier, check: impl Fn(&Run, &mut Sink) -> Result<(), String> + Sync + Send + Clone + 'static) -> Vec<Space> {
    let mut v = vec![];
    for (name, ws, lists) in wide(tier, CalcMethod::Euclidean, &[]) {
        v.push(planned_space(&name, ws, lists, "prefixes around the capacity", wide_stops, check.clone()));
    }
    for (name, ws, lists) in deep(tier, CalcMethod::Euclidean, &[]) {
        v.push(planned_space(&name, ws, lists, "several prefixes", deep_stops, check.clone()));
    }
    for kind in [Kind::P, Kind::B] {
        for (name, ws, lists) in massive(tier, CalcMethod::Euclidean, kind, Frame::ID, &[]) {
            v.push(planned_space(&name, ws, lists, "several prefixes", massive_stops, check.clone()));
        }
    }
    for (name, ws, lists) in vertices::trees(tier, CalcMethod::Euclidean, whole, UNIT, false) {
        v.push(ladder_space(&name, ws, lists, 3, check.clone()));
    }
    v
}

fn spaces(tier: Tier, every: usize, check: impl Fn(&Run, &mut Sink) -> Result<(), String> + Sync + Send + Clone + 'static) -> Vec<Space> {
    let mut v = vec![];
    for (name, ws, fam, per) in hist_families(tier) {
        v.push(hist_space(&name, ws, fam, per, check.clone()));
    }
    for (name, ws, lists) in ladders(tier, CalcMethod::Euclidean, &[]) {
        v.push(ladder_space(&name, ws, lists, every, check.clone()));
    }
    v.extend(extremes(tier, check.clone()));
    v.extend(super::zeros::spaces(tier, CalcMethod::Euclidean, false, check));
    v
}

/// Expected insertion outcome.
fn admit(w: &World, s: usize) -> Result<(), Error> {
    match &w.boxes[s] {
        None => Err(Error::CannotMakeBbox),
        Some(b) if w.cfg.b.encloses(b) => Ok(()),
        Some(_) => Err(Error::OutOfBounds),
    }
}

fn c01_check(r: &Run, sink: &mut Sink) -> Result<(), String> {
    let mut n = 0;
    for (i, s) in r.hist.iter().enumerate() {
        let want = admit(r.w, *s);
        if want.is_ok() {
            n += 1;
        }
        sink.evals += 1;
        sink.out(match r.res[i] {
            Ok(()) => "accepted",
            Err(Error::OutOfBounds) => "OutOfBounds",
            Err(Error::CannotMakeBbox) => "CannotMakeBbox",
            Err(_) => "other error",
        });
        ensure!(r.res[i] == want, "insert #{i} of {:?} gave {:?}, expected {:?}", r.shape(i), r.res[i], want);
        ensure!(r.sizes[i] == n, "size() is {} after insert #{i}, expected {n}", r.sizes[i]);
    }
    ensure!(r.tree.size() == n, "size() is {} at the end, expected {n}", r.tree.size());
    // As if the failed ones had never been attempted
    if n < r.hist.len() {
        let mut clean = mk(&r.w.cfg);
        for i in &r.acc {
            clean.insert(*i, r.w.geoms[r.hist[*i]].clone()).map_err(|e| format!("insert #{i} fails with {e:?} on a tree without the failed attempts"))?;
        }
        let cap = 2 * n + 16;
        sink.nontrivial += 1;
        ensure!(clean.size() == r.tree.size(), "size differs from that of a tree that never saw the failed attempts");
        let (a, b) = (r.tree.ids(cap), clean.ids(cap));
        ensure!(a == b, "iteration {a:?} differs from {b:?} of a tree that never saw the failed attempts");
        let (a, b) = (r.tree.show(), clean.show());
        ensure!(a == b, "tree\n{a}\ndiffers from one that never saw the failed attempts\n{b}");
        for s in 0..r.w.syms.len() {
            let it = q(&r.w.syms[s]);
            if r.w.boxes[s].is_none() {
                continue;
            }
            let (a, b) = (r.tree.retrieve(&it, cap), clean.retrieve(&it, cap));
            ensure!(a == b, "retrieve({:?}) gives {a:?}, but {b:?} on a tree that never saw the failed attempts", r.w.syms[s]);
            if r.tree.size() > 0 {
                let (a, b) = (r.tree.find(&r.w.geoms[s]), clean.find(&r.w.geoms[s]));
                ensure!(a == b, "find({:?}) gives {a:?}, but {b:?} on a tree that never saw the failed attempts", r.w.syms[s]);
            }
        }
    }
    Ok(())
}

/// All positions built from boundary-adjacent coordinates, on trees in several states.
fn c01_edges(tier: Tier) -> Vec<Space> {
    let mut v = vec![];
    for (ki, kind) in [Kind::P, Kind::B].into_iter().enumerate() {
        let bs = [
            UNIT,
            B::new(-1.0, -1.0, 1.0, 1.0),
            B::new(-3.0, 10.0, 5.5, 10.75),
            B::new(0.1, -0.7, 0.3, 1e9),
            B::new(-1e-9, 1e-300, 1e-9, 2e-300),
            B::new(2.0, 2.0, 2.0, 5.0),
            B::new(7.0, -7.0, 7.0, -7.0),
            B::new(-1e15, -1e15, 1e15 + 2.0, 3.0),
            B::new(-0.0, 0.0, 8.0, 8.0),
            B::new(-8.0, -8.0, 0.0, -0.0),
        ];
        let mut cases = vec![];
        for b in bs {
            for pre in 0..3usize {
                cases.push((b, pre));
            }
        }
        let rects = kind == Kind::B;
        let _ = (ki, tier);
        v.push(Space::cases(
            &format!("edges-{kind:?}"),
            "every position (point tree) or box (bounds tree) whose coordinates are far outside, one ulp outside, on, one ulp inside or between the bounds, on empty and subdivided trees of 10 bounds; both zeros too",
            cases,
            move |(b, pre), sink| {
                let cs = |lo: f64, hi: f64| -> Vec<f64> {
                    let d = (hi - lo).abs().max(1.0);
                    let mut v = vec![lo - d, lo.next_down(), lo, lo.next_up(), lo + (hi - lo) / 2.0, hi.next_down(), hi, hi.next_up(), hi + d, f64::NEG_INFINITY, f64::INFINITY, 0.0, -0.0];
                    v.sort_by(|a, b| a.total_cmp(b));
                    v.dedup_by(|a, b| a.to_bits() == b.to_bits());
                    v
                };
                let (xs, ys) = (cs(b.x1, b.x2), cs(b.y1, b.y2));
                let lim = [Some((2u8, 1usize)), None, Some((0, 0))][*pre];
                let cfg = Cfg { kind, b: *b, calc: CalcMethod::Euclidean, lim };
                let mut shapes = vec![];
                for x in &xs {
                    for y in &ys {
                        shapes.push(pt(*x, *y));
                        if rects && x.is_finite() && y.is_finite() {
                            for x2 in xs.iter().filter(|a| *a >= x && a.is_finite()) {
                                for y2 in ys.iter().filter(|a| *a >= y && a.is_finite()) {
                                    shapes.push(rc(*x, *y, *x2, *y2));
                                }
                            }
                        }
                    }
                }
                for s in [pt(f64::NAN, b.y1), pt(b.x1, f64::NAN), pt(f64::NAN, f64::NAN)] {
                    shapes.push(s);
                }
                let mut t = mk(&cfg);
                let fill = [(b.x1, b.y1), (b.x2, b.y2), (b.x1, b.y2), (b.x1 + (b.x2 - b.x1) / 2.0, b.y1 + (b.y2 - b.y1) / 2.0)];
                let mut n = 0;
                if *pre != 1 {
                    for c in fill {
                        t.insert(n, Shape::Pt(c).geom()).ok();
                        n += 1;
                    }
                }
                for s in &shapes {
                    let nan = s.verts().iter().any(|c| c.0.is_nan() || c.1.is_nan());
                    let want = if !nan && s.bbox().is_some_and(|x| b.encloses(&x)) { Ok(()) } else { Err(Error::OutOfBounds) };
                    let case = format!("tree {} with {} data; insert {:?}", cfg.code(), n, s);
                    sink.at(|| case.clone());
                    let before = t.size();
                    let got = t.insert(n, s.geom());
                    sink.evals += 1;
                    sink.transitions += 1;
                    sink.out(if got.is_ok() { "accepted" } else { "OutOfBounds" });
                    let mut r = Ok(());
                    if got != want {
                        r = Err(format!("insert gave {got:?}, expected {want:?}"));
                    } else if t.size() != before + got.is_ok() as usize {
                        r = Err(format!("size went from {before} to {}", t.size()));
                    }
                    sink.judge(r, || (case, format!("    t.insert({})", s.code())))?;
                    if got.is_ok() {
                        n += 1;
                        // Keep the tree small: the first acceptances suffice
                        if n % 16 == 0 {
                            t = mk(&cfg);
                            n = 0;
                        }
                    }
                }
                sink.traces += 1;
                Ok(())
            },
        ));
    }
    v
}

pub fn c01(tier: Tier) -> Vec<Space> {
    let mut v = c01_edges(tier);
    v.push(vertices::admission(tier));
    v.extend(spaces(tier, 40, c01_check));
    v.push(twins(tier, &[Op::Size, Op::Iter]));
    v.push(hordes(tier, &[Op::Size, Op::Iter]));
    v.push(ranks(tier, CalcMethod::None, &[Op::Size]));
    v.push(super::twins::legion(tier));
    v.extend(super::twins::alive(tier));
    // Bounds that cut off two sides
    let (ws, ls) = super::catalog::trees(tier, CalcMethod::Euclidean, B::new(0.5, 0.0, 8.0, 7.5), |s| s.to_vec(), |_| true, &[], &[Some((2, 1))]);
    v.push(hist_space("catalog-cut-B", ws, Fam::List(ls.into()), 16, c01_check));
    v
}

fn c02_check(r: &Run, sink: &mut Sink) -> Result<(), String> {
    let cap = 2 * r.acc.len() + 16;
    let ids = r.tree.styles_iter(cap)?;
    sink.evals += 1;
    let mut s = ids.clone();
    s.sort_unstable();
    ensure!(s == r.acc, "iteration yields {ids:?}, stored are {:?}", r.acc);
    if r.model.root.kids.is_empty() {
        sink.out("undivided");
        return Ok(());
    }
    sink.nontrivial += 1;
    sink.out("divided");
    // Preorder: judged on the cells the tree really has
    if r.layout_matches().is_ok() {
        return Ok(());
    }
    // The cells as printed must be able to hold the data in iteration order, own data first
    if let Some(c) = r.real_layout() {
        fn go(c: &Cell<f64>, r: &Run, out: &mut Option<String>) {
            for i in &c.own {
                let b = r.model.boxes[*i];
                if !(b.x1 >= c.b.x1 && b.x2 <= c.b.x2 && b.y1 >= c.b.y1 && b.y2 <= c.b.y2) && out.is_none() {
                    *out = Some(format!("datum {i} comes where the data of cell {:?} are due, but is not in it", c.b));
                }
            }
            for k in &c.kids {
                go(k, r, out);
            }
        }
        let mut out = None;
        go(&c, r, &mut out);
        if let Some(m) = out {
            return Err(format!("not in preorder: {m}; iteration {ids:?}\n{}", r.tree.show()));
        }
    }
    Ok(())
}

pub fn c02(tier: Tier) -> Vec<Space> {
    let mut v = spaces(tier, 5, c02_check);
    v.push(super::catalog::space("catalog-B", tier, &[], c02_check));
    v.push(twins(tier, &[Op::Iter]));
    v.push(hordes(tier, &[Op::Iter]));
    v.push(ranks(tier, CalcMethod::None, &[Op::Iter]));
    v
}

fn c03_check(r: &Run, sink: &mut Sink) -> Result<(), String> {
    sink.evals += 1;
    let cells = r.model.cells().len();
    if cells > 1 {
        sink.nontrivial += 1;
    }
    sink.out(match cells {
        1 => "1 cell",
        2..=5 => "5 cells",
        6..=17 => "9-17 cells",
        _ => "21+ cells",
    });
    r.layout_matches()
}

/// The exact printed form.
fn c03_print(r: &Run, sink: &mut Sink) -> Result<(), String> {
    let mut want = String::new();
    want += match r.w.cfg.kind {
        Kind::P => "Point Quadtree Root:\n",
        Kind::B => "Bounds Quadtree Root:\n",
    };
    for c in r.model.cells() {
        let n = match c.own.len() {
            0 => String::new(),
            1 => " 1 child".into(),
            n => format!(" {n} children"),
        };
        want += &format!("{}({:.2}, {:.2}):{}\n", " ".repeat(4 * c.depth), c.b.x1, c.b.y1, n);
    }
    sink.evals += 1;
    let got = r.tree.show();
    ensure!(got == want, "printed\n{got}\nexpected\n{want}");
    Ok(())
}

/// Takes so many bytes, then fails; everything offered after that is noted too.
struct Short {
    left: usize,
    text: String,
    failed: bool,
}
impl std::fmt::Write for Short {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if self.failed || s.len() > self.left {
            self.failed = true;
            return Err(std::fmt::Error);
        }
        self.left -= s.len();
        self.text += s;
        Ok(())
    }
}

/// Printing to a writer that fails after any number of bytes ends in an error, not in a panic or
/// in silence, and what was written is the beginning of the text.
fn c03_cut(r: &Run, sink: &mut Sink) -> Result<(), String> {
    let full = r.tree.show();
    for left in 0..=full.len() {
        let mut w = Short { left, text: String::new(), failed: false };
        let got = r.tree.show_to(&mut w);
        sink.evals += 1;
        sink.transitions += 1;
        sink.nontrivial += (left < full.len()) as u64;
        sink.out(if got.is_ok() { "printed" } else { "cut short" });
        ensure!(got.is_ok() == (left == full.len()), "printing {} bytes to a writer that takes {left} gives {got:?}", full.len());
        ensure!(full.starts_with(&w.text), "a writer that takes {left} bytes was given\n{}\nwhich does not begin\n{full}", w.text);
    }
    Ok(())
}

pub fn c03(tier: Tier) -> Vec<Space> {
    let mut v = spaces(tier, 1, c03_check);
    v.push(super::catalog::space("catalog-B", tier, &[], c03_check));
    v.push(super::catalog::pairs("catalog-pairs-B", tier, c03_check));
    v.push(twins(tier, &[Op::Show]));
    v.push(hordes(tier, &[Op::Show]));
    v.push(ranks(tier, CalcMethod::None, &[Op::Show]));
    for (k, syms) in kinds() {
        v.push(hist_space(
            &format!("print-{k:?}"),
            worlds(k, &frames(), CalcMethod::Euclidean, &LIMS, &syms, &[]),
            Fam::Seq { n: syms.len(), l: 2 },
            100,
            c03_print,
        ));
        v.push(hist_space(
            &format!("print-mult-{k:?}"),
            worlds(k, &frames()[..2], CalcMethod::Euclidean, &LIMS, &syms[..4], &[]),
            Fam::Mult { n: 4, m: 5 },
            200,
            c03_print,
        ));
        v.push(hist_space(
            &format!("print-cut-{k:?}"),
            worlds(k, &frames()[..1], CalcMethod::Euclidean, &LIMS[..if tier == Tier::Quick { 4 } else { 12 }], &syms[..8], &[]),
            Fam::Seq { n: 8, l: if tier == Tier::Quick { 2 } else { 3 } },
            10,
            c03_cut,
        ));
    }
    v.extend(extremes(tier, c03_print).into_iter().map(|mut s| {
        s.name = format!("print-{}", s.name);
        s
    }));
    v
}

/// What retrieval must return, by the cells of the real tree (which are the reference cells
/// unless the layout itself is off).
fn expect_retrieve(r: &Run, layout: &Option<Cell<f64>>, b: &Bx<f64>) -> Vec<usize> {
    match layout {
        None => r.ids(&r.model.retrieve(b)),
        Some(c) => {
            let mut out = vec![];
            if r.model.fits(b) {
                c.query(r.w.cfg.kind, b, &mut out);
            }
            r.ids(&out)
        }
    }
}

fn queries_unit(kind: Kind, dense: bool) -> Vec<Shape> {
    let mut v = vec![];
    let n = if dense { 33 } else { 9 };
    for i in 0..n {
        for j in 0..n {
            let (x, y) = (8.0 * i as f64 / (n - 1) as f64, 8.0 * j as f64 / (n - 1) as f64);
            v.push(pt(x, y));
        }
    }
    let out = [pt(-0.5, 4.0), pt(8.25, 4.0), pt(4.0, 8.0 + 1.0 / 64.0), pt(4.0, -1.0 / 64.0), pt(9.0, 9.0), pt(4.25, 4.25), pt(3.75, 4.25), pt(4.0, 4.25), pt(1.9375, 6.0625)];
    v.extend(out);
    let (nan, inf) = (f64::NAN, f64::INFINITY);
    v.extend([pt(nan, 4.0), pt(2.5, nan), pt(nan, nan), pt(inf, 4.0), pt(4.0, -inf)]);
    // Beside every side and corner of the bounds
    let h = 1.0 / 64.0;
    for x in [-h, 0.0, 2.5, 8.0, 8.0 + h] {
        for y in [-h, 0.0, 2.5, 8.0, 8.0 + h] {
            if x < 0.0 || x > 8.0 || y < 0.0 || y > 8.0 {
                v.push(pt(x, y));
            }
        }
    }
    if kind == Kind::B {
        // Reaching, lying or just poking out on every side
        let spans = [(1.0, 3.0), (-h, 1.0), (-2.0, -h), (3.0, 8.0 + h), (8.0 + h, 9.0), (-1.0, 9.0), (0.0, 8.0)];
        for (i, (x1, x2)) in spans.iter().enumerate() {
            for (j, (y1, y2)) in spans.iter().enumerate() {
                if (1..6).contains(&i) || (1..6).contains(&j) {
                    v.push(rc(*x1, *y1, *x2, *y2));
                }
            }
        }
        let xs: Vec<f64> = if dense { (0..=8).map(|x| x as f64).collect() } else { vec![0.0, 1.0, 2.0, 3.5, 4.0, 5.0, 8.0] };
        for (i, x1) in xs.iter().enumerate() {
            for x2 in &xs[i..] {
                for (j, y1) in xs.iter().enumerate() {
                    for y2 in &xs[j..] {
                        if dense || (i + j) % 2 == 0 || x1 == x2 || y1 == y2 {
                            v.push(rc(*x1, *y1, *x2, *y2));
                        }
                    }
                }
            }
        }
        v.extend([
            ln(1.0, 1.0, 3.0, 3.0),
            ln(3.0, 5.0, 5.0, 3.0),
            Shape::Ls(vec![(5.0, 5.0), (7.0, 7.0), (5.0, 7.0)]),
            Shape::Pg(vec![(0.5, 0.5), (3.5, 0.5), (3.5, 3.5)], vec![]),
            rc(-1.0, 2.0, 3.0, 3.0),
            rc(7.0, 7.0, 8.5, 8.0),
            Shape::Ls(vec![]),
        ]);
    }
    v
}

struct Qs {
    items: Vec<Item<f64>>,
    boxes: Vec<Option<B>>,
    shapes: Vec<Shape>,
}

fn mk_queries(kind: Kind, dense: bool, f: Frame) -> Qs {
    let shapes: Vec<Shape> = queries_unit(kind, dense).iter().map(|s| f.s(s)).collect();
    Qs { items: shapes.iter().map(q).collect(), boxes: shapes.iter().map(|s| s.bbox()).collect(), shapes }
}

fn retrieve_check(r: &Run, qs: &Qs, sink: &mut Sink) -> Result<(), String> {
    let layout = if r.layout_matches().is_ok() { None } else { r.real_layout() };
    let off = layout.is_none() && r.layout_matches().is_err();
    let cap = 2 * r.acc.len() + 16;
    let point = r.w.cfg.kind == Kind::P;
    let (mut empty, mut some, mut all) = (0, 0, 0);
    for (i, it) in qs.items.iter().enumerate() {
        sink.at(|| format!("{}\n  then retrieve({:?})", r.describe(), qs.shapes[i]));
        let (got0, bad) = r.tree.retrieve_hint(it, cap);
        if let Some(m) = bad {
            return Err(format!("retrieve({:?}) {m}", qs.shapes[i]));
        }
        let mut got = got0.clone();
        got.sort_unstable();
        let mut d = got.clone();
        d.dedup();
        ensure!(d == got, "retrieve({:?}) returns a datum twice: {got0:?}", qs.shapes[i]);
        ensure!(got.iter().all(|x| r.acc.binary_search(x).is_ok()), "retrieve({:?}) returns something not stored: {got0:?}", qs.shapes[i]);
        let Some(b) = &qs.boxes[i] else {
            ensure!(got.is_empty(), "retrieve({:?}) without bounding box returns {got0:?}", qs.shapes[i]);
            continue;
        };
        if !r.w.cfg.b.encloses(b) {
            ensure!(got.is_empty(), "retrieve({:?}) outside the bounds returns {got0:?}", qs.shapes[i]);
            continue;
        }
        for id in &r.acc {
            let db = r.w.boxes[r.hist[*id]].unwrap_or(*b);
            let must = if point { db == *b } else { db.overlaps(b) };
            ensure!(!must || got.binary_search(id).is_ok(), "retrieve({:?}) misses #{id} {:?}; it returns {got0:?}\n{}", qs.shapes[i], r.shape(*id), r.tree.show());
        }
        if !off {
            let want = expect_retrieve(r, &layout, &(*b).into());
            ensure!(got == want, "retrieve({:?}) returns {got:?}, but the cells concerned hold {want:?}\n{}", qs.shapes[i], r.tree.show());
        }
        match got.len() {
            0 => empty += 1,
            n if n == r.acc.len() => all += 1,
            _ => some += 1,
        }
    }
    sink.evals += qs.items.len() as u64;
    sink.transitions += qs.items.len() as u64;
    sink.nontrivial += some;
    sink.out_n("returns nothing", empty);
    sink.out_n("returns some", some);
    sink.out_n("returns all", all);
    // Every stored datum finds itself, and iterating a retrieval works in every style
    let mut done = std::collections::HashSet::new();
    for id in &r.acc {
        if !done.insert(r.hist[*id]) {
            continue;
        }
        let it = Item { id: usize::MAX, g: r.w.geoms[r.hist[*id]].clone() };
        sink.at(|| format!("{}\n  then retrieve({:?})", r.describe(), r.shape(*id)));
        let mut got = r.tree.retrieve(&it, cap);
        got.sort_unstable();
        sink.evals += 1;
        for o in &r.acc {
            let same = r.hist[*o] == r.hist[*id] || (point && r.w.boxes[r.hist[*o]] == r.w.boxes[r.hist[*id]]);
            ensure!(!same || got.binary_search(o).is_ok(), "retrieve of stored {:?} misses its equal #{o}; it returns {got:?}", r.shape(*id));
        }
    }
    for i in (0..qs.items.len()).step_by(97) {
        r.tree.styles_retrieve(&qs.items[i], cap).map_err(|e| format!("retrieve({:?}): {e}", qs.shapes[i]))?;
    }
    Ok(())
}

fn retrieve_spaces(kind: Kind, tier: Tier) -> Vec<Space> {
    let quick = tier == Tier::Quick;
    let fr = frames();
    let mut v = vec![];
    let kq = |f: Frame, d: bool| std::sync::Arc::new(mk_queries(kind, d, f));
    let syms = if kind == Kind::P { pt_syms() } else { sh_syms() };
    let inner = syms.len() - 3;
    // One space per frame as queries live in the frame
    for (fi, f) in fr.iter().enumerate() {
        let qs = kq(*f, false);
        let ws = worlds(kind, &[*f], CalcMethod::None, &LIMS, &syms[..inner], &[]);
        let l = if quick { 2 } else { 3 };
        let q2 = qs.clone();
        v.push(hist_space(&format!("seq{l}-f{fi}"), ws, Fam::Seq { n: inner, l }, 40, move |r, s| retrieve_check(r, &q2, s)));
        if fi < 2 || !quick {
            let (n, m) = if quick { (6, 2) } else { (7, 3) };
            let ws = worlds(kind, &[*f], CalcMethod::None, &LIMS[..if quick { 6 } else { 12 }], &syms[..n], &[]);
            let q2 = qs.clone();
            v.push(hist_space(&format!("mult-f{fi}"), ws, Fam::Mult { n, m }, 40, move |r, s| retrieve_check(r, &q2, s)));
        }
    }
    if kind == Kind::B {
        let shapes = super::catalog::data(tier);
        let qs = Qs { items: shapes.iter().map(q).collect(), boxes: shapes.iter().map(|s| s.bbox()).collect(), shapes };
        v.push(super::catalog::space("catalog-B", tier, &[], move |r, s| retrieve_check(r, &qs, s)));
        let odd = odd_syms();
        let mut shapes: Vec<Shape> = queries_unit(kind, false).into_iter().step_by(7).collect();
        shapes.extend(odd.iter().cloned());
        let qs = Qs { items: shapes.iter().map(q).collect(), boxes: shapes.iter().map(|s| s.bbox()).collect(), shapes };
        let ws = worlds(kind, &fr[..1], CalcMethod::None, &[Some((3, 1)), Some((1, 0)), Some((2, 2)), None, Some((5, 0))], &odd, &[]);
        v.push(hist_space("odd", ws, Fam::Seq { n: odd.len(), l: 3 }, 60, move |r, s| retrieve_check(r, &qs, s)));
    }
    let ws = worlds(kind, &fr[..1], CalcMethod::None, &LIMS[..if quick { 3 } else { 6 }], &syms, &[]);
    let qs = kq(fr[0], false);
    let n = if quick { 6 } else { 7 };
    v.push(hist_space(&format!("seq4-{n}"), ws.clone(), Fam::Seq { n, l: 4 }, 60, move |r, s| retrieve_check(r, &qs, s)));
    let base: Vec<Shape> = match kind {
        Kind::P => lattice(4, 0.0, 8.0).into_iter().chain(lattice(3, 1.0, 7.0)).step_by(if quick { 3 } else { 2 }).collect(),
        Kind::B => rich_shapes(),
    };
    let nb = if quick { base.len().min(9) } else { base.len() };
    let qs = kq(fr[0], false);
    v.push(hist_space(
        "subset",
        worlds(kind, &fr[..1], CalcMethod::None, &[Some((3, 1)), Some((2, 2)), Some((5, 1))], &base, &[]),
        Fam::Sub { n: nb },
        30,
        move |r, s| retrieve_check(r, &qs, s),
    ));
    for (fi, f) in fr.iter().enumerate().take(if quick { 1 } else { 3 }) {
        for (name, ws, lists) in ladders(tier, CalcMethod::None, &[]) {
            let ws: Vec<World> = ws.into_iter().filter(|w| w.cfg.kind == kind && w.cfg.b == f.b(UNIT)).collect();
            if ws.is_empty() {
                continue;
            }
            let qs = kq(*f, true);
            let every = if quick { 20 } else { 17 };
            v.push(ladder_space(&format!("{name}-f{fi}"), ws, lists, every, move |r, s| retrieve_check(r, &qs, s)));
        }
    }
    // Either zero, against both
    for (name, ws, fam, per) in super::zeros::families(tier, CalcMethod::None, kind, false) {
        let mut shapes = ws[0].syms.clone();
        shapes.extend(super::zeros::points(2.0));
        if kind == Kind::B {
            shapes.extend(super::zeros::shapes(2.0));
        }
        let qs = Qs { items: shapes.iter().map(q).collect(), boxes: shapes.iter().map(|s| s.bbox()).collect(), shapes };
        v.push(hist_space(&name, ws, fam, per, move |r, s| retrieve_check(r, &qs, s)));
    }
    let qs = kq(fr[0], false);
    for (name, ws, lists) in wide(tier, CalcMethod::None, &[]) {
        if ws[0].cfg.kind == kind {
            let qs = qs.clone();
            v.push(planned_space(&name, ws, lists, "prefixes around the capacity", wide_stops, move |r, s| retrieve_check(r, &qs, s)));
        }
    }
    for (name, ws, lists) in deep(tier, CalcMethod::None, &[]) {
        if ws[0].cfg.kind == kind {
            // The symbols themselves are the queries that lead deep
            let mut shapes = queries_unit(kind, false);
            shapes.truncate(60);
            shapes.extend(ws[0].syms.iter().cloned());
            let qs = Qs { items: shapes.iter().map(q).collect(), boxes: shapes.iter().map(|s| s.bbox()).collect(), shapes };
            v.push(planned_space(&name, ws, lists, "several prefixes", deep_stops, move |r, s| retrieve_check(r, &qs, s)));
        }
    }
    for (name, ws, lists) in massive(tier, CalcMethod::None, kind, fr[0], &[]) {
        let mut shapes = queries_unit(kind, false);
        shapes = shapes.into_iter().step_by(if name.starts_with("crowd") { 5 } else { 19 }).collect();
        shapes.push(ws[0].syms[0].clone());
        let qs = Qs { items: shapes.iter().map(q).collect(), boxes: shapes.iter().map(|s| s.bbox()).collect(), shapes };
        v.push(planned_space(&name, ws, lists, "several prefixes", massive_stops, move |r, s| retrieve_check(r, &qs, s)));
    }
    if kind == Kind::B {
        for (name, ws, lists) in vertices::trees(tier, CalcMethod::None, whole, UNIT, true) {
            // Each datum is a query, and so are the long shapes
            let mut shapes = ws[0].syms.clone();
            shapes.extend(ws[0].cmps.iter().cloned());
            let qs = Qs { items: shapes.iter().map(q).collect(), boxes: shapes.iter().map(|s| s.bbox()).collect(), shapes };
            v.push(ladder_space(&name, ws, lists, 5, move |r, s| retrieve_check(r, &qs, s)));
        }
    }
    v
}

pub fn c04(tier: Tier) -> Vec<Space> {
    let mut v = retrieve_spaces(Kind::P, tier);
    v.push(twins(tier, &[Op::Retrieve]));
    v.push(hordes(tier, &[Op::Retrieve]));
    v.push(ranks(tier, CalcMethod::None, &[Op::Retrieve]));
    v
}

pub fn c05(tier: Tier) -> Vec<Space> {
    let mut v = retrieve_spaces(Kind::B, tier);
    v.push(twins(tier, &[Op::Retrieve]));
    v.push(hordes(tier, &[Op::Retrieve]));
    v.push(ranks(tier, CalcMethod::None, &[Op::Retrieve]));
    v
}
