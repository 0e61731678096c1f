//! C16: answers do not depend on insertion order, tuning or tree kind.

use super::*;
use crate::model::Kind;

/// Everything observable about a tree, in terms of symbols and distances.
struct View {
    tree: AnyTree<f64>,
    acc: Vec<bool>,
}

fn build(w: &World, hist: &[usize], order: &[usize]) -> View {
    let mut t = mk(&w.cfg);
    let mut acc = vec![false; hist.len()];
    for i in order {
        acc[*i] = t.insert(*i, w.geoms[hist[*i]].clone()).is_ok();
    }
    View { tree: t, acc }
}

/// Cells in printed order with the symbols they hold; None when print and iteration do not fit.
fn cells(v: &View, hist: &[usize]) -> Option<Vec<(usize, u64, u64, Vec<usize>)>> {
    let lines = parse(&v.tree.show()).ok()?;
    let ids = v.tree.ids(2 * hist.len() + 16);
    let mut at = 0;
    let mut out = vec![];
    for l in &lines {
        let mut s: Vec<usize> = ids.get(at..at + l.n)?.iter().map(|i| hist[*i]).collect();
        s.sort_unstable();
        at += l.n;
        out.push((l.indent, l.x.to_bits(), l.y.to_bits(), s));
    }
    (at == ids.len()).then_some(out)
}

fn stored(v: &View, hist: &[usize]) -> Vec<usize> {
    let mut s: Vec<usize> = v.tree.ids(2 * hist.len() + 16).iter().map(|i| hist[*i]).collect();
    s.sort_unstable();
    s
}

fn close(a: &[f64], b: &[f64], w: &World) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| (x - y).abs() <= w.tol(*x) || x == y)
}

/// Distances reported by every search, for each comparator.
fn searches(w: &World, v: &View, n: usize, rads: &[f64]) -> Vec<(String, Result<Vec<f64>, Error>)> {
    let mut out = vec![];
    let ds = |l: Result<Vec<(usize, f64)>, Error>| l.map(|v| v.iter().map(|h| h.1).collect::<Vec<f64>>());
    for (c, s) in w.cmps.iter().enumerate() {
        let g = &w.cgeoms[c];
        out.push((format!("find({s:?})"), v.tree.find(g).map(|h| vec![h.1])));
        out.push((format!("sorted({s:?})"), Ok(v.tree.sorted(g).take(2 * n + 8).map(|h| h.1).collect())));
        for k in [1, 2, n / 2 + 1] {
            out.push((format!("knn({s:?}, {k})"), ds(v.tree.knn(g, k))));
        }
        for r in rads {
            out.push((format!("find_r({s:?}, {r:?})"), v.tree.find_r(g, *r).map(|h| vec![h.1])));
            out.push((format!("knn_r({s:?}, {n}, {r:?})"), ds(v.tree.knn_r(g, n, *r))));
        }
    }
    out
}

fn same_searches(a: &[(String, Result<Vec<f64>, Error>)], b: &[(String, Result<Vec<f64>, Error>)], w: &World) -> Result<(), String> {
    for (x, y) in a.iter().zip(b) {
        let ok = match (&x.1, &y.1) {
            (Ok(p), Ok(q)) => close(p, q, w),
            (Err(p), Err(q)) => p == q,
            _ => false,
        };
        ensure!(ok, "{} gives distances {:?} on the first tree, {:?} on the other", x.0, x.1, y.1);
    }
    Ok(())
}

fn perms(n: usize) -> Vec<Vec<usize>> {
    fn go(cur: &mut Vec<usize>, used: &mut Vec<bool>, out: &mut Vec<Vec<usize>>) {
        if cur.len() == used.len() {
            out.push(cur.clone());
            return;
        }
        for i in 0..used.len() {
            if !used[i] {
                used[i] = true;
                cur.push(i);
                go(cur, used, out);
                cur.pop();
                used[i] = false;
            }
        }
    }
    let mut out = vec![];
    go(&mut vec![], &mut vec![false; n], &mut out);
    out
}

/// Orders for histories too long for all permutations.
fn some_orders(n: usize) -> Vec<Vec<usize>> {
    let mut v = orders(n);
    for r in 1..n {
        v.push((0..n).map(|i| (i + r) % n).collect());
    }
    v
}

fn say(w: &World, hist: &[usize], order: &[usize]) -> String {
    let h: Vec<String> = order.iter().map(|i| format!("{:?}", w.syms[hist[*i]])).collect();
    format!("tree {} after inserts [{}]", w.cfg.code(), h.join(", "))
}

/// Compare the tree of the history in the given order with that in the other orders.
fn order_case(w: &World, hist: &[usize], orders: &[Vec<usize>], qs: &[Item<f64>], sink: &mut Sink) -> Res {
    let first: Vec<usize> = (0..hist.len()).collect();
    let base = build(w, hist, &first);
    let n = hist.len();
    let rads = [w.scale() / 4.0 + 0.1234567, 0.0];
    let bc = cells(&base, hist);
    let bs = searches(w, &base, n, &rads);
    let sym = |v: Vec<usize>| {
        let mut s: Vec<usize> = v.iter().map(|i| hist[*i]).collect();
        s.sort_unstable();
        s
    };
    let br: Vec<Vec<usize>> = qs.iter().map(|q| sym(base.tree.retrieve(q, 2 * n + 16))).collect();
    sink.traces += 1;
    sink.transitions += n as u64;
    for o in orders {
        sink.at(|| format!("{}\n  compared with order {o:?}", say(w, hist, &first)));
        let other = build(w, hist, o);
        sink.traces += 1;
        sink.transitions += n as u64;
        sink.evals += 1;
        let r = (|| {
            ensure!(other.acc == base.acc, "different inserts succeed");
            ensure!(other.tree.size() == base.tree.size(), "sizes {} and {}", base.tree.size(), other.tree.size());
            ensure!(stored(&base, hist) == stored(&other, hist), "different data are iterated");
            let oc = cells(&other, hist);
            ensure!(bc.is_none() || bc == oc, "different cells or contents:\n{}\n{}", base.tree.show(), other.tree.show());
            for (i, q) in qs.iter().enumerate() {
                let got = sym(other.tree.retrieve(q, 2 * n + 16));
                ensure!(got == br[i], "retrieve({:?}) gives symbols {:?} on the first, {:?} on the other", q.g, br[i], got);
            }
            same_searches(&bs, &searches(w, &other, n, &rads), w)
        })();
        sink.evals += bs.len() as u64 + qs.len() as u64;
        sink.transitions += bs.len() as u64 + qs.len() as u64;
        sink.judge(r, || (format!("{} against {}", say(w, hist, &first), say(w, hist, o)), String::new()))?;
    }
    if bc.as_ref().is_some_and(|c| c.len() > 1) {
        sink.nontrivial += 1;
        sink.out("divided");
    } else {
        sink.out("undivided");
    }
    Ok(())
}

fn order_space(name: &str, ws: Vec<World>, fam: Fam, per: usize, max: usize, all: bool, qs: Vec<Shape>) -> Space {
    let n = fam.count();
    let blocks = n.div_ceil(per);
    let what = format!("{}, each in {} orders, in {} worlds: same cells, contents, retrievals and search distances", fam.words(), if all { "all" } else { "many" }, ws.len());
    Space::new(name, what, blocks * ws.len(), move |chunk, sink| {
        let w = &ws[chunk / blocks];
        let b = chunk % blocks;
        let f = Frame::ID;
        let items: Vec<Item<f64>> = qs.iter().map(|s| q(&f.s(s))).collect();
        for i in b * per..((b + 1) * per).min(n) {
            let h = fam.get(i);
            if h.len() < 2 || h.len() > max {
                continue;
            }
            let mut k = crate::engine::H::new();
            h.iter().for_each(|x| k.add(*x as u64 + 1));
            k.add(w.idx);
            sink.states.insert(k.0);
            let os = if all { perms(h.len()) } else { some_orders(h.len()) };
            order_case(w, &h, &os[1..], &items, sink)?;
        }
        Ok(())
    })
}

/// Same history under every tuning, and points in both kinds of tree.
fn tuning_space(name: &str, ws: Vec<Vec<World>>, fam: Fam, per: usize) -> Space {
    let n = fam.count();
    let blocks = n.div_ceil(per);
    let what = format!("{} under {} settings at a time ({} groups): same acceptance, size, data and distances", fam.words(), ws[0].len(), ws.len());
    Space::new(name, what, blocks * ws.len(), move |chunk, sink| {
        let group = &ws[chunk / blocks];
        let b = chunk % blocks;
        for i in b * per..((b + 1) * per).min(n) {
            let h = fam.get(i);
            let order: Vec<usize> = (0..h.len()).collect();
            let mut k = crate::engine::H::new();
            h.iter().for_each(|x| k.add(*x as u64 + 1));
            k.add((chunk / blocks) as u64);
            sink.states.insert(k.0);
            let rads = [group[0].scale() / 4.0 + 0.1234567, 0.0];
            let mut base: Option<(View, Vec<(String, Result<Vec<f64>, Error>)>)> = None;
            for w in group {
                sink.at(|| format!("{} compared with that of {}", say(w, &h, &order), group[0].cfg.code()));
                let v = build(w, &h, &order);
                let s = searches(w, &v, h.len(), &rads);
                sink.traces += 1;
                sink.transitions += (h.len() + s.len()) as u64;
                match &base {
                    None => base = Some((v, s)),
                    Some((bv, bs)) => {
                        sink.evals += 1 + s.len() as u64;
                        let r = (|| {
                            ensure!(bv.acc == v.acc, "different inserts succeed: {:?} and {:?}", bv.acc, v.acc);
                            ensure!(bv.tree.size() == v.tree.size(), "sizes {} and {}", bv.tree.size(), v.tree.size());
                            ensure!(stored(bv, &h) == stored(&v, &h), "different data are iterated");
                            same_searches(bs, &s, w)
                        })();
                        sink.judge(r, || (format!("{} against {}", say(&group[0], &h, &order), say(w, &h, &order)), String::new()))?;
                        sink.nontrivial += (h.len() > 1) as u64;
                        sink.out(if w.cfg.kind == group[0].cfg.kind { "other tuning" } else { "other kind" });
                    }
                }
            }
        }
        Ok(())
    })
}

pub fn c16(tier: Tier) -> Vec<Space> {
    let qk = tier == Tier::Quick;
    let e = CalcMethod::Euclidean;
    let mut v = vec![];
    let lims = [Some((3u8, 1usize)), Some((2, 2)), Some((1, 1)), Some((3, 0)), Some((2, 3)), None, Some((5, 1))];
    let lims = if qk { &lims[..4] } else { &lims[..] };
    let cm = cmps_small();
    let globe = Frame::new(-2.0, -1.0, 0.5, 0.25);
    for (kind, syms) in [(Kind::P, pt_syms()), (Kind::B, sh_syms())] {
        let inner = &syms[..syms.len() - 3];
        let mut qs: Vec<Shape> = lattice(5, 0.0, 8.0);
        qs.extend(inner.iter().cloned());
        // All permutations of every subset of up to five data
        let n = if qk { 7 } else { 9 };
        let max = if qk { 4 } else { 5 };
        let w = worlds(kind, &[Frame::ID], e, lims, inner, &cm[..if qk { 4 } else { 8 }]);
        v.push(order_space(&format!("orders-subset-{kind:?}"), w, Fam::Sub { n }, 4, max, true, qs.clone()));
        // With repeated data
        let w = worlds(kind, &[Frame::ID], e, &lims[..3], inner, &cm[..3]);
        v.push(order_space(&format!("orders-mult-{kind:?}"), w, Fam::Mult { n: 4, m: 2 }, 3, if qk { 5 } else { 6 }, true, qs.clone()));
        // Including data that are refused
        let mut some = vec![inner[0].clone(), syms[syms.len() - 1].clone(), inner[1].clone(), syms[syms.len() - 2].clone(), inner[2].clone()];
        some.push(inner[4].clone());
        let w = worlds(kind, &[Frame::ID], e, lims, &some, &cm[..3]);
        v.push(order_space(&format!("orders-refused-{kind:?}"), w, Fam::Sub { n: 6 }, 2, 5, true, qs.clone()));
        // Larger sets in many orders
        let big = match kind {
            Kind::P => lattice(if qk { 6 } else { 9 }, 0.0, 8.0),
            Kind::B => {
                let mut b = vec![];
                for (i, s) in lattice(if qk { 5 } else { 8 }, 0.0, 7.0).iter().enumerate() {
                    if let Shape::Pt(c) = s {
                        let d = [0.25, 0.0, 1.0][i % 3];
                        b.push(rc(c.0, c.1, c.0 + d, c.1 + 0.5));
                    }
                }
                b
            }
        };
        let nb = big.len();
        let mut l2: Vec<Option<(u8, usize)>> = lims.to_vec();
        l2.push(Some((4, 8)));
        let w = worlds(kind, &[Frame::ID, frames()[2]], e, &l2, &big, &cm[..3]);
        v.push(order_space(&format!("orders-large-{kind:?}"), w, Fam::List(std::sync::Arc::new(vec![(0..nb).collect(), (0..nb).step_by(2).collect(), (0..nb).chain(0..nb / 2).collect()])), 1, 1000, false, qs.clone()));
        // Clustered data under larger capacities: divisions well below the root
        let tight: Vec<Shape> = match kind {
            Kind::P => vec![pt(0.5, 0.5), pt(1.5, 0.5), pt(2.0, 2.0), pt(0.5, 1.5), pt(1.0, 1.0), pt(3.0, 0.5), pt(1.25, 1.75), pt(0.25, 0.25)],
            Kind::B => vec![rc(0.25, 0.25, 0.5, 0.75), pt(1.5, 0.5), rc(0.5, 0.5, 1.5, 1.5), pt(0.5, 1.5), rc(1.0, 1.0, 3.0, 3.0), rc(1.25, 1.25, 1.75, 1.5), pt(1.75, 1.75), ln(0.25, 1.25, 0.75, 1.75)],
        };
        let caps: Vec<Option<(u8, usize)>> = [(5, 2), (5, 3), (6, 4), (4, 5)].map(Some).to_vec();
        let (n, max) = if qk { (7, 6) } else { (8, 7) };
        let w = worlds(kind, &[Frame::ID], e, &caps, &tight, &cm[..2]);
        let near: Vec<Shape> = lattice(5, 0.0, 2.0);
        v.push(order_space(&format!("orders-cluster-{kind:?}"), w, Fam::Sub { n }, 2, max, true, near));
        let w = worlds(kind, &[globe], CalcMethod::Spherical, &lims[..2], &rich_pts(kind), &[pt(4.0, 4.0), pt(0.5, 7.5), pt(8.0, 1.0)]);
        v.push(order_space(&format!("orders-sphere-{kind:?}"), w, Fam::Sub { n: if qk { 6 } else { 8 } }, 4, 4, true, vec![]));
    }
    for kind in [Kind::P, Kind::B] {
        for (name, ws, fam, per) in super::zeros::families(tier, e, kind, true) {
            v.push(order_space(&format!("orders-{name}"), ws, fam, per, 4, true, super::zeros::points(2.0)));
        }
    }
    let cs: Vec<Shape> = super::catalog::comparators(tier).into_iter().step_by(if qk { 8 } else { 4 }).collect();
    let (ws, ls) = super::catalog::trees(tier, e, UNIT, |s| s.to_vec(), |_| true, &cs, &[Some((2, 1)), Some((1, 0))]);
    v.push(order_space("orders-catalog-B", ws, Fam::List(ls.into_iter().step_by(if qk { 4 } else { 2 }).collect::<Vec<_>>().into()), 8, 3, true, cs));
    // Tuning and kind
    let all: Vec<Option<(u8, usize)>> = (0..=4).flat_map(|d| [0usize, 1, 2, 3, 5].map(|c| Some((d as u8, c)))).chain([None, Some((7, 1)), Some((255, 4)), Some((8, 2)), Some((3, 1 << 32)), Some((2, usize::MAX))]).collect();
    let group = |kinds: &[Kind], f: Frame, calc: CalcMethod, syms: &[Shape], cmps: &[Shape]| -> Vec<World> {
        let base = World::new(kinds[0], f, UNIT, calc, None, syms, cmps);
        kinds.iter().flat_map(|k| all.iter().map(move |l| (*k, *l))).map(|(k, l)| base.with(k, l)).collect()
    };
    let pts = pt_syms();
    let cl = cmps_large();
    let cl: Vec<Shape> = cl.iter().step_by(if qk { 6 } else { 2 }).cloned().collect();
    let both = [Kind::P, Kind::B];
    let fr = frames();
    v.push(tuning_space("tuning-points", fr[..if qk { 2 } else { 5 }].iter().map(|f| group(&both, *f, e, &pts, &cl)).collect(), Fam::Seq { n: 14, l: if qk { 2 } else { 3 } }, 8));
    v.push(tuning_space("tuning-points-subset", vec![group(&both, fr[0], e, &lattice(4, 0.0, 8.0), &cl)], Fam::Sub { n: if qk { 9 } else { 14 } }, 8));
    let mut ss = sh_syms();
    ss.truncate(15);
    v.push(tuning_space("tuning-shapes", fr[..if qk { 1 } else { 3 }].iter().map(|f| group(&[Kind::B], *f, e, &ss, &cl)).collect(), Fam::Seq { n: 15, l: 2 }, 8));
    v.push(tuning_space("tuning-shapes-subset", vec![group(&[Kind::B], fr[0], e, &rich_shapes(), &cl)], Fam::Sub { n: if qk { 7 } else { 11 } }, 4));
    v.push(tuning_space("tuning-sphere", vec![group(&both, globe, CalcMethod::Spherical, &rich_pts(Kind::P), &[pt(4.0, 4.0), pt(0.5, 7.5), rc(1.0, 1.0, 3.0, 3.0)])], Fam::Sub { n: if qk { 7 } else { 9 } }, 4));
    let dense = lattice(if qk { 9 } else { 17 }, 0.0, 8.0);
    let nd = dense.len();
    v.push(super::ranks::ranks(tier, e, &[super::twins::Op::Iter, super::twins::Op::Find, super::twins::Op::Knn]));
    v.push(super::ranks::ranks(tier, e, &[super::twins::Op::Sorted]));
    v.push(tuning_space("tuning-large", vec![group(&both, fr[0], e, &dense, &cl)], Fam::List(std::sync::Arc::new(vec![(0..nd).collect(), (0..nd).step_by(3).collect(), (0..nd).flat_map(|i| [i, i]).collect()])), 1));
    v
}

fn rich_pts(kind: Kind) -> Vec<Shape> {
    match kind {
        Kind::P => lattice(3, 0.5, 7.5),
        Kind::B => vec![
            pt(1.0, 1.0),
            ln(1.0, 5.0, 3.0, 7.0),
            rc(5.0, 5.0, 6.0, 7.0),
            Shape::Pg(vec![(5.0, 1.0), (7.0, 1.0), (7.0, 3.0)], vec![]),
            pt(7.5, 7.5),
            rc(2.0, 2.0, 5.0, 3.0),
            Shape::Ls(vec![(3.0, 3.0), (5.0, 3.0), (5.0, 5.0)]),
            pt(4.0, 4.0),
        ],
    }
}
