//! C18: trees over every number type against the f64 tree.

use super::*;
use crate::engine::H;
use crate::model::{Bx, Cell, Kind, Model};
use geo::{Coord, GeoNum, Line, LineString, Point, Polygon, Rect};
use std::fmt::Display;

fn cv<T: GeoNum>(x: f64) -> T {
    <T as num_traits::NumCast>::from(x).expect("representable")
}

fn co_t<T: GeoNum>(c: &C) -> Coord<T> {
    Coord { x: cv(c.0), y: cv(c.1) }
}

fn ls_t<T: GeoNum>(v: &[C]) -> LineString<T> {
    LineString::new(v.iter().map(co_t).collect())
}

/// The shape over another number type.
fn geom_t<T: GeoNum>(s: &Shape) -> Geometry<T> {
    match s {
        Shape::Pt(c) => Geometry::Point(Point(co_t(c))),
        Shape::Ln(a, b) => Geometry::Line(Line::new(co_t::<T>(a), co_t::<T>(b))),
        Shape::Ls(v) => Geometry::LineString(ls_t(v)),
        Shape::Pg(e, h) => Geometry::Polygon(Polygon::new(ls_t(e), h.iter().map(|r| ls_t(r)).collect())),
        Shape::Rc(a, b) => Geometry::Rect(Rect::new(co_t::<T>(a), co_t::<T>(b))),
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Ty {
    I16,
    I32,
    I64,
    I128,
    Isize,
    F32,
    F64,
}
const INTS: [Ty; 5] = [Ty::I16, Ty::I32, Ty::I64, Ty::I128, Ty::Isize];

impl Ty {
    fn int(self) -> bool {
        !matches!(self, Ty::F32 | Ty::F64)
    }
    fn name(self) -> &'static str {
        match self {
            Ty::I16 => "i16",
            Ty::I32 => "i32",
            Ty::I64 => "i64",
            Ty::I128 => "i128",
            Ty::Isize => "isize",
            Ty::F32 => "f32",
            Ty::F64 => "f64",
        }
    }
}

macro_rules! with {
    ($ty:expr, $f:ident ( $($a:expr),* )) => {
        match $ty {
            Ty::I16 => $f::<i16>($($a),*),
            Ty::I32 => $f::<i32>($($a),*),
            Ty::I64 => $f::<i64>($($a),*),
            Ty::I128 => $f::<i128>($($a),*),
            Ty::Isize => $f::<isize>($($a),*),
            Ty::F32 => $f::<f32>($($a),*),
            Ty::F64 => $f::<f64>($($a),*),
        }
    };
}

/// Everything observed of one tree.
struct Seen {
    res: Vec<Result<(), Error>>,
    size: usize,
    ids: Vec<usize>,
    show: String,
    got: Vec<Vec<usize>>,
}

fn see<T: GeoNum + Display + 'static>(cfg: &Cfg, hist: &[Shape], queries: &[Shape]) -> Seen {
    let b = Rect::new(co_t::<T>(&(cfg.b.x1, cfg.b.y1)), co_t::<T>(&(cfg.b.x2, cfg.b.y2)));
    let mut t: AnyTree<T> = AnyTree::new(cfg.kind, b, cfg.calc, cfg.lim);
    let res = hist.iter().enumerate().map(|(i, s)| t.insert(i, geom_t(s))).collect();
    let cap = 2 * hist.len() + 16;
    Seen {
        res,
        size: t.size(),
        ids: t.ids(cap),
        show: t.show(),
        got: queries.iter().map(|s| t.retrieve(&Item { id: usize::MAX, g: geom_t(s) }, cap)).collect(),
    }
}

fn whole(x: f64) -> bool {
    x.fract() == 0.0
}

fn sorted_ids(v: &[usize]) -> Vec<usize> {
    let mut v = v.to_vec();
    v.sort_unstable();
    v
}

/// Cells as printed: (depth, count, divided).
fn printed(show: &str) -> Result<Vec<(usize, usize, bool)>, String> {
    let l = parse(show)?;
    Ok((0..l.len()).map(|i| (l[i].indent / 4, l[i].n, l.get(i + 1).is_some_and(|n| n.indent > l[i].indent))).collect())
}

fn check(ty: Ty, cfg: &Cfg, hist: &[Shape], queries: &[Shape], got: &Seen, sink: &mut Sink) -> Result<(), String> {
    let (md, mc) = cfg.limits();
    let mut model = Model::new(cfg.kind, cfg.b.into(), md, mc);
    let mut acc = vec![];
    sink.evals += 1;
    for (i, s) in hist.iter().enumerate() {
        let bx = s.bbox();
        let want = match &bx {
            None => Err(Error::CannotMakeBbox),
            Some(b) if cfg.b.encloses(b) => Ok(()),
            Some(_) => Err(Error::OutOfBounds),
        };
        ensure!(got.res[i] == want, "insert #{i} {s:?} gives {:?}, in f64 it is {want:?}", got.res[i]);
        if want.is_ok() {
            model.insert(bx.unwrap().into());
            acc.push(i);
        }
    }
    ensure!(got.size == acc.len(), "size {} after {} accepted inserts", got.size, acc.len());
    ensure!(sorted_ids(&got.ids) == acc, "iteration gives {:?}, accepted are {acc:?}\n{}", got.ids, got.show);
    // Limits
    let cells = printed(&got.show)?;
    ensure!(cells.iter().map(|c| c.1).sum::<usize>() == acc.len(), "the printed cells do not hold {} data:\n{}", acc.len(), got.show);
    for (d, n, divided) in &cells {
        ensure!(*d <= md, "a cell at depth {d}, the limit is {md}:\n{}", got.show);
        ensure!(*divided || *d == md || *n <= mc, "an undivided cell at depth {d} holds {n} data, the limit is {mc}:\n{}", got.show);
        ensure!(!divided || *d < md, "a cell at depth {d} is divided:\n{}", got.show);
    }
    let splits = model.cells().iter().all(|c| [c.b.x1, c.b.y1, c.b.x2, c.b.y2].iter().all(|x| whole(*x)));
    let centres = |b: &Bx<f64>| whole((b.x1 + b.x2) / 2.0) && whole((b.y1 + b.y2) / 2.0);
    let single = |x: f64| (x as f32) as f64 == x;
    let held = ty != Ty::F32 || model.cells().iter().all(|c| [c.b.x1, c.b.y1, c.b.x2, c.b.y2].iter().all(|x| single(*x)));
    let exact = if !ty.int() { held } else { splits && model.boxes.iter().all(centres) };
    if model.cells().len() > 1 {
        sink.nontrivial += 1;
    }
    if exact {
        sink.out("as the f64 layout");
        let lines = parse(&got.show)?;
        let want: Vec<&Cell<f64>> = model.cells();
        ensure!(lines.len() == want.len(), "{} cells, f64 has {}:\n{}", lines.len(), want.len(), got.show);
        let mut at = 0;
        for (l, c) in lines.iter().zip(&want) {
            // Large f32 numbers print all their digits, so this is safe for them too
            ensure!(
                l.indent == 4 * c.depth && (l.x - c.b.x1).abs() < 0.0051 && (l.y - c.b.y1).abs() < 0.0051 && l.n == c.own.len(),
                "a cell is {l:?}, in f64 it is at depth {} with low corner ({}, {}) holding {}:\n{}",
                c.depth,
                c.b.x1,
                c.b.y1,
                c.own.len(),
                got.show
            );
            let have = sorted_ids(&got.ids[at..at + l.n]);
            at += l.n;
            let own = sorted_ids(&c.own.iter().map(|i| acc[*i]).collect::<Vec<_>>());
            ensure!(have == own, "cell {l:?} holds {have:?}, in f64 it holds {own:?}");
        }
    } else {
        sink.out("splits not whole");
    }
    for (s, g) in queries.iter().zip(&got.got) {
        sink.evals += 1;
        let have = sorted_ids(g);
        let mut d = have.clone();
        d.dedup();
        ensure!(d == have, "retrieve({s:?}) gives a datum twice: {g:?}");
        ensure!(have.iter().all(|i| acc.binary_search(i).is_ok()), "retrieve({s:?}) gives data not stored: {g:?}");
        let b = match s.bbox() {
            Some(b) if cfg.b.encloses(&b) => b,
            _ => {
                ensure!(have.is_empty(), "retrieve({s:?}) gives {g:?} though the query is not inside the bounds");
                continue;
            }
        };
        for i in &acc {
            let db = hist[*i].bbox().unwrap();
            let must = if cfg.kind == Kind::P { db == b } else { db.overlaps(&b) };
            ensure!(!must || have.binary_search(i).is_ok(), "retrieve({s:?}) misses #{i} {:?}: {g:?}\n{}", hist[*i], got.show);
        }
        if exact && (!ty.int() || centres(&b.into())) {
            let want = sorted_ids(&model.retrieve(&b.into()).iter().map(|i| acc[*i]).collect::<Vec<_>>());
            ensure!(have == want, "retrieve({s:?}) gives {have:?}, in f64 {want:?}\n{}", got.show);
        }
    }
    Ok(())
}

/// Interesting whole coordinates of an interval, and just outside it.
fn marks(lo: f64, hi: f64, dense: bool) -> Vec<f64> {
    let m = lo + ((hi - lo) / 2.0).floor();
    let q = lo + ((hi - lo) / 4.0).floor();
    let mut v = vec![lo, lo + 1.0, q, m - 1.0, m, m + 1.0, hi - 1.0, hi];
    if dense {
        v.extend([q + 1.0, m + ((hi - m) / 2.0).floor(), q - 1.0]);
    }
    v.retain(|x| *x >= lo && *x <= hi);
    v.sort_by(|a, b| a.partial_cmp(b).unwrap());
    v.dedup();
    v
}

fn int_bounds() -> Vec<B> {
    vec![
        B::new(0.0, 0.0, 8.0, 8.0),
        B::new(-4.0, -4.0, 4.0, 4.0),
        B::new(-3.0, -5.0, 4.0, 2.0),
        B::new(0.0, 0.0, 7.0, 5.0),
        B::new(-7.0, -1.0, 0.0, 0.0),
        B::new(0.0, 0.0, 1.0, 1.0),
        B::new(-1.0, -1.0, 1.0, 1.0),
        B::new(3.0, -2.0, 3.0, 5.0),
        B::new(-2.0, -2.0, -2.0, -2.0),
        B::new(-15.0, 2.0, -4.0, 18.0),
        B::new(-16000.0, -16000.0, 16000.0, 16000.0),
        B::new(-1001.0, 30.0, 1000.0, 32000.0),
    ]
}

const NLIMS: [Option<(u8, usize)>; 9] =
    [Some((2, 1)), Some((4, 1)), Some((0, 1)), Some((3, 0)), Some((3, 2)), None, Some((7, 1)), Some((40, 1)), Some((1, 1))];

fn pts_of(b: B, dense: bool) -> Vec<Shape> {
    let (xs, ys) = (marks(b.x1, b.x2, dense), marks(b.y1, b.y2, dense));
    let mut v = vec![];
    for (i, x) in xs.iter().enumerate() {
        for (j, y) in ys.iter().enumerate() {
            if dense || (i * 5 + j * 3) % 4 != 1 || xs.len() * ys.len() <= 16 {
                v.push(pt(*x, *y));
            }
        }
    }
    v
}

fn boxes_of(b: B, dense: bool) -> Vec<Shape> {
    let (xs, ys) = (marks(b.x1, b.x2, dense), marks(b.y1, b.y2, dense));
    let mut v = vec![];
    for (i, x1) in xs.iter().enumerate() {
        for (i2, x2) in xs.iter().enumerate().skip(i) {
            for (j, y1) in ys.iter().enumerate() {
                for (j2, y2) in ys.iter().enumerate().skip(j) {
                    if (i2 - i <= 2 || i == 0) && (j2 - j <= 2 || i2 - i == 1) && (dense || (i + i2 + j * 3 + j2) % 3 == 0) {
                        v.push(rc(*x1, *y1, *x2, *y2));
                    }
                }
            }
        }
    }
    v
}

/// A spread-out choice of n of the shapes.
fn pick(v: &[Shape], n: usize) -> Vec<Shape> {
    if v.len() <= n {
        return v.to_vec();
    }
    (0..n).map(|i| v[i * (v.len() - 1) / (n - 1)].clone()).collect()
}

/// Which types can hold the coordinates.
fn types(b: B) -> Vec<Ty> {
    let m = b.x1.abs().max(b.x2.abs()).max(b.y1.abs()).max(b.y2.abs());
    let w = (b.x2 - b.x1).max(b.y2 - b.y1);
    let mut v = vec![];
    for t in [Ty::I16, Ty::I32, Ty::I64, Ty::I128, Ty::Isize, Ty::F32, Ty::F64] {
        let ok = match t {
            Ty::I16 => m < 32700.0 && w < 32700.0,
            Ty::I32 => m < 2.1e9 && w < 2.1e9,
            Ty::F32 => m < 16_000_000.0 && w < 16_000_000.0,
            _ => true,
        };
        if ok {
            v.push(t);
        }
    }
    v
}

/// All histories of a family over whole coordinates, on every type.
fn ints(name: &str, kind: Kind, nsym: usize, fam: fn(usize) -> Fam, lims: usize, per: usize, dense: bool) -> Space {
    let bs = int_bounds();
    let mut jobs = vec![];
    let mut total = 0;
    for (bi, b) in bs.iter().enumerate() {
        let mut syms = match kind {
            Kind::P => pick(&pts_of(*b, dense), nsym),
            Kind::B => pick(&boxes_of(*b, dense), nsym),
        };
        // One outside, one line
        syms.push(pt(b.x2 + 1.0, b.y1));
        if kind == Kind::B {
            syms.push(rc(b.x1, b.y1 - 1.0, b.x2, b.y1));
            syms.push(ln(b.x1, b.y2, b.x1 + ((b.x2 - b.x1) / 2.0).floor(), b.y1));
        }
        let f = fam(syms.len());
        let n = f.count();
        let blocks = n.div_ceil(per);
        let queries: Vec<Shape> = match kind {
            Kind::P => pts_of(*b, true),
            Kind::B => {
                let v = boxes_of(*b, false);
                pick(&v, if dense { 120 } else { 60 }).into_iter().chain(pick(&pts_of(*b, false), 20)).collect()
            }
        }
        .into_iter()
        .chain([pt(b.x1 - 1.0, b.y1)])
        .collect();
        let w = std::sync::Arc::new((syms, f, queries));
        for l in NLIMS.iter().take(lims) {
            for blk in 0..blocks {
                jobs.push((bi, *l, blk, w.clone()));
            }
            total += n;
        }
    }
    let what = format!("{} bounds x {lims} limits x every supported number type; {} per setting; {total} histories", bs.len(), fam(nsym + 1).words());
    Space::new(name, what, jobs.len(), move |ji, sink| {
        let (bi, lim, blk, w) = &jobs[ji];
        let (syms, f, queries) = &**w;
        let b = bs[*bi];
        let cfg = Cfg { kind, b, calc: CalcMethod::Euclidean, lim: *lim };
        for i in blk * per..((blk + 1) * per).min(f.count()) {
            let hist: Vec<Shape> = f.get(i).iter().map(|s| syms[*s].clone()).collect();
            let mut first: Option<(Ty, Seen)> = None;
            for ty in types(b) {
                sink.at(|| format!("{} over {}: inserts {hist:?}, then retrievals", cfg.code(), ty.name()));
                let got = with!(ty, see(&cfg, &hist, queries));
                sink.transitions += (hist.len() + queries.len()) as u64;
                sink.traces += 1;
                let mut h = H::new();
                h.add(*bi as u64);
                h.add(lim.map(|l| l.0 as u64 * 100 + l.1 as u64).unwrap_or(0));
                h.add(ty as u64);
                got.ids.iter().for_each(|x| h.add(*x as u64));
                got.show.bytes().for_each(|x| h.add(x as u64));
                sink.states.insert(h.0);
                let mut r = check(ty, &cfg, &hist, queries, &got, sink);
                if INTS.contains(&ty) && r.is_ok() {
                    match &first {
                        None => first = Some((ty, got)),
                        Some((t0, s0)) => {
                            if s0.show != got.show || s0.got.iter().zip(&got.got).any(|(a, b)| sorted_ids(a) != sorted_ids(b)) {
                                r = Err(format!("differs from the {} tree:\n{}\n{}", t0.name(), s0.show, got.show));
                            }
                        }
                    }
                }
                sink.judge(r.map_err(|m| format!("over {}: {m}", ty.name())), || (format!("{} over {}: inserts {hist:?}", cfg.code(), ty.name()), String::new()))?;
            }
        }
        Ok(())
    })
}

/// Values only the wider types hold.
fn wide_ints(name: &str, kind: Kind, nsym: usize, l: usize) -> Space {
    let k31 = 2147483648.0;
    let bs = vec![
        (B::new(-1_000_000.0, -999_999.0, 1_000_000.0, 1_000_001.0), "i32 and up"),
        (B::new(-16.0 * k31, -16.0 * k31, 16.0 * k31, 16.0 * k31), "i64 and up"),
        (B::new(k31 * 1024.0, -k31, k31 * 1024.0 + 8.0, k31 * 3.0), "i64 and up"),
        (B::new(-k31 * k31 * k31, 0.0, k31 * k31 * k31, k31 * k31 * 16.0), "i128"),
    ];
    let lims = [Some((3u8, 1usize)), Some((8, 1)), None];
    let jobs: Vec<(usize, usize)> = (0..bs.len()).flat_map(|b| (0..lims.len()).map(move |l| (b, l))).collect();
    Space::new(name, format!("wide bounds only larger types hold, every sequence of up to {l} of {nsym} data"), jobs.len(), move |ji, sink| {
        let (b, _) = bs[jobs[ji].0];
        let cfg = Cfg { kind, b, calc: CalcMethod::Euclidean, lim: lims[jobs[ji].1] };
        let f = Frame { ox: b.x1, oy: b.y1, sx: (b.x2 - b.x1) / 8.0, sy: (b.y2 - b.y1) / 8.0 };
        let unit = if kind == Kind::P { pt_syms() } else { sh_syms()[..12].to_vec() };
        let fit = |s: &Shape| {
            let s = f.s(s);
            s.map(&|c| (c.0.round(), c.1.round()))
        };
        let syms: Vec<Shape> = unit.iter().map(fit).take(nsym).collect();
        let queries: Vec<Shape> = syms.iter().cloned().chain([pt(b.x1, b.y1), pt(b.x2, b.y2)]).collect();
        let fam = Fam::Seq { n: syms.len(), l };
        let tys: Vec<Ty> = if b.x2 > 1e20 { vec![Ty::I128] } else if b.x2 > 1e10 { vec![Ty::I64, Ty::I128, Ty::Isize] } else { vec![Ty::I32, Ty::I64, Ty::I128, Ty::Isize] };
        for i in 0..fam.count() {
            let hist: Vec<Shape> = fam.get(i).iter().map(|s| syms[*s].clone()).collect();
            for ty in &tys {
                sink.at(|| format!("{} over {}: inserts {hist:?}", cfg.code(), ty.name()));
                let got = with!(ty, see(&cfg, &hist, &queries));
                sink.transitions += (hist.len() + queries.len()) as u64;
                sink.traces += 1;
                let mut h = H::new();
                h.add(ji as u64);
                h.add(*ty as u64);
                h.add(i as u64);
                sink.states.insert(h.0);
                let r = check(*ty, &cfg, &hist, &queries, &got, sink);
                sink.judge(r.map_err(|m| format!("over {}: {m}", ty.name())), || (format!("{} over {}: inserts {hist:?}", cfg.code(), ty.name()), String::new()))?;
            }
        }
        Ok(())
    })
}

/// Printed cells with their low corners taken back by an offset.
fn corners(show: &str, off: (i128, i128)) -> Result<Vec<(usize, i128, i128, usize)>, String> {
    let mut out = vec![];
    for l in show.lines().skip(1).filter(|l| !l.trim().is_empty()) {
        let nums: Vec<i128> = l
            .split(|c: char| !(c.is_ascii_digit() || c == '-' || c == '.'))
            .filter_map(|w| w.split('.').next().and_then(|w| w.parse().ok()))
            .collect();
        ensure!(nums.len() >= 2, "unreadable line {l:?}");
        out.push((l.len() - l.trim_start().len(), nums[0] - off.0, nums[1] - off.1, nums.get(2).copied().unwrap_or(0) as usize));
    }
    Ok(out)
}

/// The shape, moved by whole numbers no f64 can hold.
fn moved<T: GeoNum>(s: &Shape, off: (i128, i128)) -> Geometry<T> {
    let c = |p: &C| Coord { x: num_traits::NumCast::from(p.0 as i128 + off.0).expect("representable"), y: num_traits::NumCast::from(p.1 as i128 + off.1).expect("representable") };
    let r = |v: &[C]| LineString::new(v.iter().map(c).collect());
    match s {
        Shape::Pt(p) => Geometry::Point(Point(c(p))),
        Shape::Ln(a, b) => Geometry::Line(Line::new(c(a), c(b))),
        Shape::Ls(v) => Geometry::LineString(r(v)),
        Shape::Pg(e, h) => Geometry::Polygon(Polygon::new(r(e), h.iter().map(|x| r(x)).collect())),
        Shape::Rc(a, b) => Geometry::Rect(Rect::new(c(a), c(b))),
    }
}

fn see_moved<T: GeoNum + Display + 'static>(cfg: &Cfg, hist: &[Shape], queries: &[Shape], off: (i128, i128)) -> Seen {
    let Geometry::Rect(b) = moved::<T>(&rc(cfg.b.x1, cfg.b.y1, cfg.b.x2, cfg.b.y2), off) else { unreachable!() };
    let mut t: AnyTree<T> = AnyTree::new(cfg.kind, b, cfg.calc, cfg.lim);
    let res = hist.iter().enumerate().map(|(i, s)| t.insert(i, moved(s, off))).collect();
    let cap = 2 * hist.len() + 16;
    Seen {
        res,
        size: t.size(),
        ids: t.ids(cap),
        show: t.show(),
        got: queries.iter().map(|s| t.retrieve(&Item { id: usize::MAX, g: moved(s, off) }, cap)).collect(),
    }
}

/// Trees so far from the origin that no float holds their coordinates: the same as at the origin.
fn far(name: &str, kind: Kind, n: usize, fam: Fam) -> Space {
    let p = |e: u32| 1i128 << e;
    let offs: Vec<(Ty, (i128, i128))> = vec![
        (Ty::I16, (p(13), -p(13))),
        (Ty::I32, (p(29), 0)),
        (Ty::I32, (-p(29) - 64, p(29) + 32)),
        (Ty::I64, (p(61), -p(61))),
        (Ty::I64, (0, p(60) + 16)),
        (Ty::I64, (p(53) + 1, -p(53) - 3)),
        (Ty::Isize, (-p(61), p(54) + 1)),
        (Ty::I128, (p(125), -p(124))),
        (Ty::I128, (p(63) + 5, p(64) + 7)),
    ];
    // Even coordinates: whole box centres
    let twice = |s: &Shape| s.map(&|c| ((c.0 * 2.0).round(), (c.1 * 2.0).round()));
    let mut syms: Vec<Shape> = match kind {
        Kind::P => [(3.0, 3.0), (4.0, 4.0), (5.0, 4.0), (12.0, 3.0), (4.0, 5.0), (16.0, 16.0), (0.0, 7.0), (8.0, 9.0), (9.0, 8.0), (17.0, 3.0)].iter().map(|c| pt(c.0, c.1)).collect(),
        Kind::B => [rc(1.0, 1.0, 2.0, 2.0), rc(3.0, 3.0, 5.0, 5.0), rc(4.0, 0.0, 5.0, 3.0), rc(0.0, 4.0, 4.0, 8.0), pt(4.0, 4.0), pt(5.0, 1.0), ln(0.0, 0.0, 8.0, 8.0), rc(7.0, 7.0, 9.0, 8.0), rc(6.0, 5.0, 7.0, 8.0)].iter().map(twice).collect(),
    };
    syms.truncate(n);
    let queries: Vec<Shape> = match kind {
        Kind::P => [0.0, 3.0, 4.0, 5.0, 8.0, 9.0, 12.0, 16.0, 17.0].iter().flat_map(|x| [0.0, 2.0, 4.0, 5.0, 8.0, 9.0, 15.0].iter().map(move |y| pt(*x, *y))).collect(),
        Kind::B => [rc(1.0, 1.0, 2.0, 2.0), rc(2.0, 2.0, 6.0, 6.0), rc(4.0, 0.0, 5.0, 4.0), rc(0.0, 4.0, 8.0, 5.0), pt(4.0, 4.0), pt(5.0, 5.0), ln(1.0, 7.0, 3.0, 5.0), rc(5.0, 0.0, 9.0, 2.0), rc(0.0, 0.0, 8.0, 8.0)].iter().map(twice).collect(),
    };
    let lims = [Some((4u8, 1usize)), Some((2, 1)), Some((3, 2)), Some((0, 1)), None, Some((4, 0))];
    let count = fam.count();
    let per = 40;
    let blocks = count.div_ceil(per);
    let what = format!("{} of {n} data at {} offsets up to 2^125, {} limits: the tree moved by the offset", fam.words(), offs.len(), lims.len());
    Space::new(name, what, blocks * lims.len(), move |ch, sink| {
        let cfg = Cfg { kind, b: B::new(0.0, 0.0, 16.0, 16.0), calc: CalcMethod::Euclidean, lim: lims[ch / blocks] };
        let blk = ch % blocks;
        for i in blk * per..((blk + 1) * per).min(count) {
            let hist: Vec<Shape> = fam.get(i).iter().map(|s| syms[*s].clone()).collect();
            sink.at(|| format!("{}: inserts {hist:?}", cfg.code()));
            let base = see::<i64>(&cfg, &hist, &queries);
            check(Ty::I64, &cfg, &hist, &queries, &base, sink).or_else(|m| sink.judge(Err(format!("over i64: {m}")), || (format!("{} over i64: inserts {hist:?}", cfg.code()), String::new())))?;
            let cells = corners(&base.show, (0, 0));
            for (ty, off) in &offs {
                let case = || format!("{} over {}, everything moved by {off:?}: inserts {hist:?}", cfg.code(), ty.name());
                sink.at(case);
                let off = *off;
                let got = with!(*ty, see_moved(&cfg, &hist, &queries, off));
                sink.transitions += (hist.len() + queries.len()) as u64;
                sink.traces += 1;
                sink.evals += 1 + queries.len() as u64;
                sink.nontrivial += (got.show.lines().count() > 2) as u64;
                let mut h = H::new();
                [ch as u64 / blocks as u64, i as u64, *ty as u64, off.0 as u64].iter().for_each(|x| h.add(*x));
                sink.states.insert(h.0);
                let r = if got.res != base.res || got.size != base.size {
                    Err(format!("inserts give {:?} and size {}, at the origin {:?} and {}", got.res, got.size, base.res, base.size))
                } else if corners(&got.show, off) != cells {
                    Err(format!("cells are\n{}, at the origin\n{}", got.show, base.show))
                } else if sorted_ids(&got.ids) != sorted_ids(&base.ids) {
                    Err(format!("iterates {:?}, at the origin {:?}", got.ids, base.ids))
                } else {
                    match (0..queries.len()).find(|q| sorted_ids(&got.got[*q]) != sorted_ids(&base.got[*q])) {
                        Some(q) => Err(format!("retrieve of {:?} (moved) gives {:?}, at the origin {:?}", queries[q], got.got[q], base.got[q])),
                        None => Ok(()),
                    }
                };
                sink.judge(r, || (case(), String::new()))?;
            }
        }
        sink.out("as at the origin");
        Ok(())
    })
}

/// f32 trees: layout on dyadic coordinates, and searches.
fn floats(name: &str, kind: Kind, spherical: bool, n: usize, fam: Fam, per: usize, lims: &'static [Option<(u8, usize)>]) -> Space {
    let calc = if spherical { CalcMethod::Spherical } else { CalcMethod::Euclidean };
    let fr: Vec<Frame> = if spherical { vec![Frame::new(-2.0, -1.0, 0.5, 0.25), Frame::new(0.5, 0.75, 0.0625, 0.0625), Frame::new(-3.125, -1.5, 0.78125, 0.375)] } else { frames()[..4].to_vec() };
    let syms: Vec<Shape> = match (kind, spherical) {
        (Kind::P, _) => pt_syms()[..n].to_vec(),
        // Only kinds every comparator can be measured against
        (_, true) => sh_syms().into_iter().filter(|s| matches!(s, Shape::Pt(_) | Shape::Rc(..))).take(n).collect(),
        _ => sh_syms()[..n].to_vec(),
    };
    let cmps: Vec<Shape> = if spherical {
        vec![pt(4.0, 4.0), pt(0.5, 0.25), pt(3.0, 5.5), pt(7.5, 0.25), pt(2.0, 2.0)]
    } else {
        vec![pt(4.0, 4.0), pt(0.5, 0.25), pt(3.0, 5.5), rc(2.0, 2.0, 3.0, 3.0), rc(6.0, 3.0, 10.0, 5.0), ln(1.0, 6.0, 7.0, 2.0), Shape::Pg(vec![(4.5, 0.5), (7.0, 0.5), (7.0, 2.5)], vec![])]
    };
    let mut ws = vec![];
    for f in fr {
        ws.extend(worlds(kind, &[f], calc, lims, &syms, &cmps));
    }
    for (i, w) in ws.iter_mut().enumerate() {
        w.idx = i as u64;
    }
    let count = fam.count();
    let blocks = count.div_ceil(per);
    let what = format!("{} in {} worlds on an f32 tree, with every search against a scan in f64", fam.words(), ws.len());
    Space::new(name, what, blocks * ws.len(), move |ch, sink| {
        let w = &ws[ch / blocks];
        let blk = ch % blocks;
        let tol = if spherical { 2e-4 } else { 1e-5 * w.scale().max(1.0) };
        for i in blk * per..((blk + 1) * per).min(count) {
            let hi = fam.get(i);
            let hist: Vec<Shape> = hi.iter().map(|s| w.syms[*s].clone()).collect();
            let case = || format!("{} over f32: inserts {hist:?}", w.cfg.code());
            sink.at(case);
            let b = Rect::new(co_t::<f32>(&(w.cfg.b.x1, w.cfg.b.y1)), co_t::<f32>(&(w.cfg.b.x2, w.cfg.b.y2)));
            let mut t: AnyTree<f32> = AnyTree::new(kind, b, calc, w.cfg.lim);
            let mut acc = vec![];
            for (id, s) in hist.iter().enumerate() {
                if t.insert(id, geom_t(s)).is_ok() {
                    acc.push(id);
                }
            }
            sink.transitions += hist.len() as u64;
            sink.traces += 1;
            let mut h = H::new();
            h.add(ch as u64 / blocks as u64);
            h.add(i as u64);
            sink.states.insert(h.0);
            let seen = see::<f32>(&w.cfg, &hist, &w.syms);
            let r = check(Ty::F32, &w.cfg, &hist, &w.syms, &seen, sink).and_then(|()| searches(&t, w, &hi, &acc, tol, sink));
            sink.judge(r.map_err(|m| format!("over f32: {m}")), || (case(), String::new()))?;
        }
        Ok(())
    })
}

fn searches(t: &AnyTree<f32>, w: &World, hi: &[usize], acc: &[usize], tol: f64, sink: &mut Sink) -> Result<(), String> {
    for (c, cs) in w.cmps.iter().enumerate() {
        let g: Geometry<f32> = geom_t(cs);
        let mut sc = vec![];
        for id in acc {
            match w.table[c][hi[*id]] {
                Some(d) => sc.push((d, *id)),
                None => return Ok(()),
            }
        }
        sc.sort_by(|a, b| a.partial_cmp(b).unwrap());
        sink.evals += 3;
        sink.transitions += 3;
        let n = sc.len();
        let dist = |id: usize| sc.iter().find(|s| s.1 == id).map(|s| s.0);
        let list = |what: String, got: &[(usize, f32)], want: usize| -> Result<(), String> {
            ensure!(got.len() == want, "{what} yields {} data, expected {want}: {got:?}", got.len());
            let mut ids: Vec<usize> = got.iter().map(|h| h.0).collect();
            ids.sort_unstable();
            ids.dedup();
            ensure!(ids.len() == want, "{what} yields a datum twice: {got:?}");
            for (i, (id, d)) in got.iter().enumerate() {
                let d = *d as f64;
                ensure!(dist(*id).is_some_and(|x| (x - d).abs() <= tol), "{what} says #{id} is at {d}, in f64 it is at {:?}", dist(*id));
                ensure!((d - sc[i].0).abs() <= tol, "{what} has distance {d} in place {i}, in f64 it is {}: {got:?}", sc[i].0);
            }
            Ok(())
        };
        if n == 0 {
            ensure!(t.find(&g) == Err(Error::Empty), "find({cs:?}) on an empty tree gives {:?}", t.find(&g));
            continue;
        }
        let f = t.find(&g).map_err(|e| format!("find({cs:?}) fails with {e:?}"))?;
        list(format!("find({cs:?})"), &[f], 1)?;
        let got: Vec<(usize, f32)> = t.sorted(&g).take(2 * n + 16).collect();
        list(format!("sorted({cs:?})"), &got, n)?;
        for k in [0, 1, n / 2, n, usize::MAX] {
            let got = t.knn(&g, k).map_err(|e| format!("knn({cs:?}, {k}) fails with {e:?}"))?;
            list(format!("knn({cs:?}, {k})"), &got, k.min(n))?;
        }
        // Radii well between distances
        let mut rs = vec![sc[n - 1].0 * 1.5 + 1.0];
        for x in sc.windows(2) {
            if x[1].0 - x[0].0 > 10.0 * tol {
                rs.push((x[0].0 + x[1].0) / 2.0);
            }
        }
        if sc[0].0 > 10.0 * tol {
            rs.push(sc[0].0 / 2.0);
        }
        for r in rs {
            let within = sc.iter().filter(|s| s.0 <= r).count();
            let rf = r as f32;
            sink.evals += 2;
            sink.transitions += 2;
            let got = t.knn_r(&g, usize::MAX, rf).map_err(|e| format!("knn_r({cs:?}, max, {rf}) fails with {e:?}"))?;
            list(format!("knn_r({cs:?}, max, {rf})"), &got, within)?;
            match (within, t.find_r(&g, rf)) {
                (0, Err(Error::NoneInRadius)) => {}
                (0, x) => return Err(format!("find_r({cs:?}, {rf}) gives {x:?}, in f64 nothing is in the radius")),
                (_, Ok(h)) => list(format!("find_r({cs:?}, {rf})"), &[h], 1)?,
                (_, Err(e)) => return Err(format!("find_r({cs:?}, {rf}) fails with {e:?}, in f64 {within} are in the radius")),
            }
        }
        sink.out("searched in f32");
    }
    Ok(())
}

pub fn c18(tier: Tier) -> Vec<Space> {
    let qk = tier == Tier::Quick;
    let mut v = vec![];
    for kind in [Kind::P, Kind::B] {
        let k = format!("{kind:?}");
        if qk {
            v.push(ints(&format!("seq2-{k}"), kind, 14, |n| Fam::Seq { n, l: 2 }, 9, 60, true));
            v.push(ints(&format!("seq3-{k}"), kind, 7, |n| Fam::Seq { n, l: 3 }, 5, 60, false));
            v.push(ints(&format!("subsets-{k}"), kind, 7, |n| Fam::Sub { n }, 6, 60, false));
            v.push(ints(&format!("mult-{k}"), kind, 3, |n| Fam::Mult { n, m: 2 }, 6, 40, false));
        } else {
            v.push(ints(&format!("seq2-{k}"), kind, 60, |n| Fam::Seq { n, l: 2 }, 9, 60, true));
            v.push(ints(&format!("seq3-{k}"), kind, 14, |n| Fam::Seq { n, l: 3 }, 9, 60, true));
            v.push(ints(&format!("seq4-{k}"), kind, 6, |n| Fam::Seq { n, l: 4 }, 6, 60, false));
            v.push(ints(&format!("subsets-{k}"), kind, 11, |n| Fam::Sub { n }, 9, 60, false));
            v.push(ints(&format!("mult-{k}"), kind, 4, |n| Fam::Mult { n, m: 3 }, 9, 40, false));
        }
        v.push(wide_ints(&format!("wide-{k}"), kind, if qk { 8 } else { 11 }, if qk { 3 } else { 4 }));
        let n = if kind == Kind::P { 10 } else { 9 };
        v.push(far(&format!("far-seq-{k}"), kind, n, Fam::Seq { n, l: if qk { 3 } else { 4 } }));
        v.push(far(&format!("far-sub-{k}"), kind, n, Fam::Sub { n }));
        let (n, l) = if qk { (9, 3) } else { (10, 4) };
        v.push(floats(&format!("f32-{k}"), kind, false, n, Fam::Seq { n, l: l.min(if kind == Kind::B { l } else { 4 }) }, 40, &LIMS[..6]));
        let n = if kind == Kind::P { 9 } else { 8 };
        v.push(floats(&format!("f32-sphere-{k}"), kind, true, n, Fam::Seq { n, l: if qk { 3 } else { 4 } }, 40, &LIMS[..6]));
        v.push(floats(&format!("f32-sub-{k}"), kind, false, n, Fam::Sub { n }, 40, &LIMS[..]));
        v.push(floats(&format!("f32-sphere-sub-{k}"), kind, true, n, Fam::Sub { n }, 40, &LIMS[..]));
    }
    v
}
