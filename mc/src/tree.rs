//! Uniform access to the real trees through their public API only.

use crate::model::Kind;
use crate::shape::{B, Shape};
use geo::{GeoNum, Point, Rect};
use quadtree::*;
use std::cell::Cell;

/// Datum carrying its identity.
#[derive(Debug, Clone)]
pub struct Item<T: GeoNum> {
    pub id: usize,
    pub g: Geometry<T>,
}

thread_local! {
    /// What a thread does whenever a search on it looks at a stored datum.
    static WATCH: Cell<Option<&'static dyn Fn()>> = const { Cell::new(None) };
}

/// Run `f` with `watch` called whenever this thread looks at a datum.
pub fn watched<R>(watch: &dyn Fn(), f: impl FnOnce() -> R) -> R {
    struct Reset(Option<&'static dyn Fn()>);
    impl Drop for Reset {
        fn drop(&mut self) {
            WATCH.with(|w| w.set(self.0));
        }
    }
    // Not used after this function returns, however it does
    let long: &'static dyn Fn() = unsafe { std::mem::transmute(watch) };
    let _reset = Reset(WATCH.with(|w| w.replace(Some(long))));
    f()
}

#[inline]
fn looked() {
    if let Some(f) = WATCH.with(|w| w.get()) {
        f();
    }
}

impl<T: GeoNum> AsGeom<T> for Item<T> {
    fn as_geom(&self) -> GeometryRef<'_, T> {
        looked();
        self.g.as_geom()
    }
}

impl<T: GeoNum> AsPoint<T> for Item<T> {
    fn as_point(&self) -> Point<T> {
        looked();
        match &self.g {
            Geometry::Point(p) => *p,
            _ => unreachable!("only points go into point trees"),
        }
    }
}

#[derive(Debug, Clone, Copy)]
pub struct Cfg {
    pub kind: Kind,
    pub b: B,
    pub calc: CalcMethod,
    /// None: default limits through `from_bounds`.
    pub lim: Option<(u8, usize)>,
}

impl Cfg {
    pub fn limits(&self) -> (usize, usize) {
        match self.lim {
            Some((d, c)) => (d as usize, c),
            None => (DEFAULT_MAX_DEPTH as usize, DEFAULT_MAX_CHILDREN),
        }
    }
    pub fn code(&self) -> String {
        let k = match self.kind {
            Kind::P => "PointQuadTree",
            Kind::B => "BoundsQuadTree",
        };
        let b = format!("Rect::new(coord!{{x:{:?},y:{:?}}}, coord!{{x:{:?},y:{:?}}})", self.b.x1, self.b.y1, self.b.x2, self.b.y2);
        match self.lim {
            Some((d, c)) => format!("{k}::new({b}, CalcMethod::{:?}, {d}, {c})", self.calc),
            None => format!("{k}::from_bounds({b}, CalcMethod::{:?})", self.calc),
        }
    }
}

pub type Hit<T> = (usize, T);

/// Wrapper that lets a tree be shared between threads even if it stopped being Sync.
pub struct Force<X>(pub X);
unsafe impl<X> Sync for Force<X> {}
unsafe impl<X> Send for Force<X> {}

macro_rules! both {
    ($s:expr, $t:ident => $e:expr) => {
        match $s {
            AnyTree::P($t) => $e,
            AnyTree::B($t) => $e,
        }
    };
}

pub enum AnyTree<T: GeoNum> {
    P(PointQuadTree<Item<T>, T>),
    B(BoundsQuadTree<Item<T>, T>),
}

impl<T: GeoNum + 'static> AnyTree<T> {
    pub fn new(kind: Kind, b: Rect<T>, calc: CalcMethod, lim: Option<(u8, usize)>) -> Self {
        match (kind, lim) {
            (Kind::P, Some((d, c))) => AnyTree::P(PointQuadTree::new(b, calc, d, c)),
            (Kind::P, None) => AnyTree::P(PointQuadTree::from_bounds(b, calc)),
            (Kind::B, Some((d, c))) => AnyTree::B(BoundsQuadTree::new(b, calc, d, c)),
            (Kind::B, None) => AnyTree::B(BoundsQuadTree::from_bounds(b, calc)),
        }
    }
    pub fn insert(&mut self, id: usize, g: Geometry<T>) -> Result<(), Error> {
        both!(self, t => t.insert(Item { id, g }))
    }
    pub fn size(&self) -> usize {
        both!(self, t => t.size())
    }
    pub fn iter(&self) -> Box<dyn Iterator<Item = usize> + '_> {
        both!(self, t => Box::new(t.into_iter().map(|i| i.id)))
    }
    /// Ids in iteration order, at most `cap` of them (so that endless iteration ends).
    pub fn ids(&self, cap: usize) -> Vec<usize> {
        both!(self, t => t.into_iter().map(|i| i.id).take(cap).collect())
    }
    pub fn retrieve(&self, q: &Item<T>, cap: usize) -> Vec<usize> {
        both!(self, t => t.retrieve(q).map(|i| i.id).take(cap).collect())
    }
    /// Like `retrieve`, and whether the iterator promised a length it did not have, or went on
    /// after its end.
    pub fn retrieve_hint(&self, q: &Item<T>, cap: usize) -> (Vec<usize>, Option<String>) {
        both!(self, t => {
            let mut it = t.retrieve(q);
            let (lo, hi) = it.size_hint();
            let v: Vec<usize> = it.by_ref().map(|i| i.id).take(cap).collect();
            let bad = if v.len() >= cap {
                None
            } else if lo > v.len() || hi.is_some_and(|h| h < v.len()) {
                Some(format!("has size_hint ({lo}, {hi:?}) but yields {} data", v.len()))
            } else {
                it.next().map(|i| format!("yields #{} after its end", i.id))
            };
            (v, bad)
        })
    }
    pub fn retrieve_iter(&self, q: &Item<T>) -> Box<dyn Iterator<Item = usize> + '_> {
        both!(self, t => Box::new(t.retrieve(q).map(|i| i.id)))
    }
    pub fn show(&self) -> String
    where
        T: std::fmt::Display,
    {
        both!(self, t => format!("{t}"))
    }
    /// Print to a writer that may fail.
    pub fn show_to(&self, w: &mut dyn std::fmt::Write) -> std::fmt::Result
    where
        T: std::fmt::Display,
    {
        both!(self, t => write!(w, "{t}"))
    }
}

impl<T: QtFloat + 'static> AnyTree<T> {
    pub fn calc_method(&self) -> CalcMethod {
        both!(self, t => t.calc_method())
    }
    pub fn find(&self, c: &Geometry<T>) -> Result<Hit<T>, Error> {
        both!(self, t => t.find(c).map(|(i, d)| (i.id, d)))
    }
    pub fn find_r(&self, c: &Geometry<T>, r: T) -> Result<Hit<T>, Error> {
        both!(self, t => t.find_r(c, r).map(|(i, d)| (i.id, d)))
    }
    pub fn knn(&self, c: &Geometry<T>, k: usize) -> Result<Vec<Hit<T>>, Error> {
        both!(self, t => t.knn(c, k).map(|v| v.into_iter().map(|(i, d)| (i.id, d)).collect()))
    }
    pub fn knn_r(&self, c: &Geometry<T>, k: usize, r: T) -> Result<Vec<Hit<T>>, Error> {
        both!(self, t => t.knn_r(c, k, r).map(|v| v.into_iter().map(|(i, d)| (i.id, d)).collect()))
    }
    pub fn sorted<'a>(&'a self, c: &'a Geometry<T>) -> Box<dyn Iterator<Item = Hit<T>> + 'a> {
        both!(self, t => Box::new(t.sorted(c).map(|(i, d)| (i.id, d))))
    }
}

pub fn mk(cfg: &Cfg) -> AnyTree<f64> {
    AnyTree::new(cfg.kind, cfg.b.rect(), cfg.calc, cfg.lim)
}

/// One line of the printed tree.
#[derive(Debug, Clone, PartialEq)]
pub struct Line {
    pub indent: usize,
    pub x: f64,
    pub y: f64,
    pub n: usize,
}

/// Parse the printed tree leniently: leading blanks, two numbers, an optional count.
pub fn parse(s: &str) -> Result<Vec<Line>, String> {
    let mut out = vec![];
    for l in s.lines().skip(1) {
        if l.trim().is_empty() {
            continue;
        }
        let indent = l.len() - l.trim_start().len();
        let mut nums = vec![];
        let mut cur = String::new();
        for ch in l.chars().chain(std::iter::once(' ')) {
            if ch.is_ascii_digit() || ch == '.' || (ch == '-' && cur.is_empty()) {
                cur.push(ch);
            } else if !cur.is_empty() {
                if let Ok(v) = cur.parse::<f64>() {
                    nums.push(v);
                }
                cur.clear();
            }
        }
        if nums.len() < 2 {
            return Err(format!("unreadable line {l:?}"));
        }
        let n = if nums.len() > 2 { nums[2] as usize } else { 0 };
        out.push(Line { indent, x: nums[0], y: nums[1], n });
    }
    Ok(out)
}

/// The query shape as an item (id is irrelevant).
pub fn q(s: &Shape) -> Item<f64> {
    Item { id: usize::MAX, g: s.geom() }
}

/// Consume an iterator in every style and compare with plain `next` calls.
pub fn styles<R, I: Iterator<Item = R>>(mk: impl Fn() -> I, id: impl Fn(R) -> usize, cap: usize) -> Result<Vec<usize>, String> {
    let mut full = vec![];
    let mut hints = vec![];
    let mut it = mk();
    loop {
        hints.push(it.size_hint());
        match it.next() {
            Some(x) => full.push(id(x)),
            None => break,
        }
        if full.len() > cap {
            return Err(format!("iteration yields more than the {cap} data there can be: {full:?}.."));
        }
    }
    for i in 0..3 {
        if let Some(x) = it.next() {
            return Err(format!("iterator yields #{} on call {} after its end", id(x), i + 1));
        }
        hints.push(it.size_hint());
    }
    let n = full.len();
    for (i, (lo, hi)) in hints.iter().enumerate() {
        let left = n.saturating_sub(i);
        if *lo > left || hi.is_some_and(|h| h < left) {
            return Err(format!("size_hint ({lo}, {hi:?}) after {i} of {n} items"));
        }
    }
    let again: Vec<usize> = mk().map(&id).collect();
    if again != full {
        return Err(format!("collected again {again:?}, by next {full:?}"));
    }
    if mk().count() != n {
        return Err(format!("count() is {} but {} items are yielded", mk().count(), n));
    }
    if mk().last().map(&id) != full.last().copied() {
        return Err("last() is not the last item yielded".into());
    }
    let folded = mk().fold(vec![], |mut v, x| {
        v.push(id(x));
        v
    });
    if folded != full {
        return Err(format!("fold visits {folded:?}, next yields {full:?}"));
    }
    let mut each = vec![];
    mk().for_each(|x| each.push(id(x)));
    if each != full {
        return Err(format!("for_each visits {each:?}, next yields {full:?}"));
    }
    for k in 0..(n + 2).min(12) {
        let mut it = mk();
        let a = it.nth(k).map(&id);
        let b = it.next().map(&id);
        if a != full.get(k).copied() || b != full.get(k + 1).copied() {
            return Err(format!("nth({k}) then next() give {a:?}, {b:?}; next yields {full:?}"));
        }
        let mut it = mk();
        let mut head: Vec<usize> = it.by_ref().take(k).map(&id).collect();
        head.extend(it.map(&id));
        if head != full {
            return Err(format!("take({k}) and the rest give {head:?}, next yields {full:?}"));
        }
        let sk: Vec<usize> = mk().skip(k).map(&id).collect();
        if sk != full[k.min(n)..] {
            return Err(format!("skip({k}) gives {sk:?}, next yields {full:?}"));
        }
    }
    let st: Vec<usize> = mk().step_by(2).map(&id).collect();
    let want: Vec<usize> = full.iter().copied().step_by(2).collect();
    if st != want {
        return Err(format!("step_by(2) gives {st:?}, next yields {full:?}"));
    }
    Ok(full)
}

impl<T: GeoNum + 'static> AnyTree<T> {
    pub fn styles_iter(&self, cap: usize) -> Result<Vec<usize>, String> {
        both!(self, t => styles(|| t.into_iter(), |i: &Item<T>| i.id, cap))
    }
    pub fn styles_retrieve(&self, q: &Item<T>, cap: usize) -> Result<Vec<usize>, String> {
        both!(self, t => styles(|| t.retrieve(q), |i: &Item<T>| i.id, cap))
    }
}

impl<T: QtFloat + 'static> AnyTree<T> {
    pub fn styles_sorted(&self, c: &Geometry<T>, cap: usize) -> Result<Vec<usize>, String> {
        both!(self, t => styles(|| t.sorted(c), |i: (&Item<T>, T)| i.0.id, cap))
    }
}
