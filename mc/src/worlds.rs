//! Worlds (a configuration, a symbol alphabet and comparators) and the exhaustive families of
//! histories executed in them.

use crate::engine::{H, Res, Sink, Space};
use crate::model::{Bx, Cell, Kind, Model};
use crate::shape::*;
use crate::tree::*;
use quadtree::*;
use std::sync::Arc;

pub const UNIT: B = B { x1: 0.0, y1: 0.0, x2: 8.0, y2: 8.0 };

/// Frames that keep the unit alphabet exact and two decimals printable.
pub fn frames() -> Vec<Frame> {
    vec![
        Frame::ID,
        Frame::new(-4.0, -4.0, 1.0, 1.0),
        Frame::new(-3.0, 10.0, 2.0, 0.5),
        Frame::new(1024.0, -512.0, 0.25, 4.0),
        Frame::new(-1048576.0, 65536.0, 16.0, 2.0),
        // Minute and vast: no absolute slack goes unnoticed
        Frame::new(0.0, 0.0, 0.5f64.powi(200), 0.5f64.powi(200)),
        Frame::new(0.0, 0.0, 2f64.powi(200), 2f64.powi(200)),
    ]
}

pub const LIMS: [Option<(u8, usize)>; 12] = [
    Some((2, 1)),
    Some((3, 1)),
    Some((0, 1)),
    Some((1, 1)),
    Some((2, 2)),
    Some((1, 0)),
    Some((3, 0)),
    Some((2, 3)),
    Some((4, 2)),
    None,
    Some((6, 1)),
    Some((9, 1)),
];

/// Point symbols, simplest first: cell interiors, split lines of every level, borders, corners,
/// near-coincident points, then points outside.
pub fn pt_syms() -> Vec<Shape> {
    vec![
        pt(1.0, 1.0),
        pt(5.0, 5.0),
        pt(4.0, 4.0),
        pt(8.0, 8.0),
        pt(4.0, 1.0),
        pt(2.0, 6.0),
        pt(0.0, 0.0),
        pt(7.0, 1.0),
        pt(1.0, 7.5),
        pt(6.0, 4.0),
        pt(4.25, 4.0),
        pt(0.0, 8.0),
        pt(9.0, 4.0),
        pt(4.0, -1.0),
    ]
}

/// Shape symbols: as above, plus straddling, degenerate, border-sharing, spanning and outside shapes.
pub fn sh_syms() -> Vec<Shape> {
    vec![
        rc(1.0, 1.0, 2.0, 2.0),
        rc(5.0, 5.0, 7.0, 7.0),
        rc(3.0, 3.0, 5.0, 5.0),
        pt(4.0, 4.0),
        ln(0.5, 5.0, 3.0, 7.0),
        rc(4.0, 1.0, 4.0, 7.0),
        rc(2.0, 2.0, 4.0, 4.0),
        Shape::Pg(vec![(5.0, 1.0), (7.0, 1.0), (6.0, 3.0)], vec![]),
        Shape::Ls(vec![(5.0, 4.5), (7.5, 4.5), (7.5, 6.0)]),
        rc(0.0, 3.0, 1.0, 4.5),
        pt(8.0, 8.0),
        rc(0.0, 0.0, 8.0, 8.0),
        rc(7.0, 7.0, 9.0, 8.0),
        pt(9.0, 4.0),
        Shape::Ls(vec![]),
    ]
}

/// More shapes, for searches over subsets.
pub fn rich_shapes() -> Vec<Shape> {
    vec![
        pt(1.0, 1.0),
        pt(6.0, 2.0),
        ln(1.0, 5.0, 3.0, 7.0),
        rc(5.0, 5.0, 6.0, 7.0),
        rc(3.5, 1.0, 4.5, 2.0),
        Shape::Pg(vec![(0.5, 2.5), (3.5, 2.5), (3.5, 3.5), (0.5, 3.5)], vec![]),
        Shape::Ls(vec![(5.0, 3.0), (7.0, 3.0), (7.0, 4.5)]),
        Shape::Pg(
            vec![(4.5, 4.5), (7.75, 4.5), (7.75, 7.75), (4.5, 7.75)],
            vec![
                vec![(4.75, 4.75), (5.0, 4.75), (4.75, 5.0)],
                vec![(5.25, 5.25), (7.25, 5.25), (7.25, 7.25), (5.25, 7.25)],
                vec![(7.5, 7.3125), (7.625, 7.3125), (7.6875, 7.5), (7.5625, 7.625), (7.4375, 7.5)],
            ],
        ),
        ln(0.0, 8.0, 8.0, 7.5),
        rc(2.0, 6.0, 2.0, 6.0),
        pt(4.0, 4.0),
        rc(0.25, 0.25, 7.75, 0.5),
    ]
}

/// Comparators in unit coordinates, all touching the bounds.
pub fn cmps_small() -> Vec<Shape> {
    vec![
        pt(4.0, 4.0),
        pt(0.0, 0.0),
        pt(3.0, 5.5),
        pt(7.5, 0.25),
        pt(6.0, 6.0),
        pt(8.0, 3.0),
        rc(2.0, 2.0, 3.0, 3.0),
        rc(6.0, 3.0, 10.0, 5.0),
        ln(1.0, 6.0, 7.0, 2.0),
        Shape::Ls(vec![(-2.0, 7.0), (3.0, 7.0), (3.0, 9.0)]),
        Shape::Pg(vec![(4.5, 0.5), (7.0, 0.5), (7.0, 2.5)], vec![]),
    ]
}

pub fn cmps_large() -> Vec<Shape> {
    let mut v = cmps_small();
    for x in [0.0, 1.0, 2.5, 4.0, 5.5, 7.0, 8.0] {
        for y in [0.0, 1.5, 3.0, 4.0, 6.5, 8.0] {
            v.push(pt(x, y));
        }
    }
    v.extend([
        rc(0.0, 0.0, 8.0, 8.0),
        rc(-4.0, -4.0, 12.0, 12.0),
        rc(4.0, 0.0, 4.0, 8.0),
        rc(-3.0, 8.0, 1.0, 9.0),
        rc(8.0, 8.0, 9.0, 9.0),
        rc(1.5, 4.5, 3.5, 6.5),
        rc(5.5, 5.5, 6.5, 6.5),
        ln(-5.0, 3.0, 15.0, 5.0),
        ln(8.0, -1.0, 8.0, 9.0),
        ln(5.5, 6.5, 6.5, 5.5),
        ln(3.0, 3.0, 3.0, 3.0),
        Shape::Ls(vec![(0.0, 0.0), (1.0, 3.0), (6.0, 3.5), (2.0, 7.5)]),
        Shape::Ls(vec![(7.5, 7.5), (7.5, 1.0)]),
        Shape::Pg(vec![(2.0, 2.0), (6.0, 2.0), (6.0, 6.0), (2.0, 6.0)], vec![vec![(3.0, 3.0), (5.0, 3.0), (5.0, 5.0), (3.0, 5.0)]]),
        Shape::Pg(vec![(-1.0, 4.0), (4.0, 9.0), (-1.0, 9.0)], vec![]),
        Shape::Pg(vec![(-4.0, -4.0), (12.0, -4.0), (12.0, 12.0), (-4.0, 12.0)], vec![]),
    ]);
    v
}

/// Tolerance for an angle near `d` computed from coordinates within the globe.
pub fn sphere_tol(d: f64) -> f64 {
    2e-13 + 4e-15 / (d / 2.0).cos().abs().max(3e-8)
}

#[derive(Clone)]
pub struct World {
    pub cfg: Cfg,
    pub syms: Vec<Shape>,
    pub geoms: Vec<Geometry<f64>>,
    pub boxes: Vec<Option<B>>,
    pub cmps: Vec<Shape>,
    pub cgeoms: Vec<Geometry<f64>>,
    /// Reference distances, by comparator and symbol; None: not supported.
    pub table: Arc<Vec<Vec<Option<f64>>>>,
    pub idx: u64,
}

pub fn ref_dist(calc: CalcMethod, a: &Shape, b: &Shape) -> Option<f64> {
    if a.verts().is_empty() || b.verts().is_empty() {
        return None;
    }
    // A line of a single vertex has no segment to measure to
    let single = |s: &Shape| matches!(s, Shape::Ls(v) if v.len() == 1);
    match calc {
        CalcMethod::Spherical if single(a) || single(b) => dist_s(a, b).map(|_| f64::INFINITY),
        CalcMethod::Euclidean if single(a) || single(b) => None,
        CalcMethod::Spherical => dist_s(a, b),
        _ => Some(dist_e(a, b)),
    }
}

impl World {
    /// Symbols and comparators are given in the frame's unit coordinates.
    pub fn new(kind: Kind, f: Frame, b: B, calc: CalcMethod, lim: Option<(u8, usize)>, syms: &[Shape], cmps: &[Shape]) -> World {
        let syms: Vec<Shape> = syms.iter().map(|s| f.s(s)).collect();
        let cmps: Vec<Shape> = cmps.iter().map(|s| f.s(s)).collect();
        let table = cmps.iter().map(|c| syms.iter().map(|s| ref_dist(calc, c, s)).collect()).collect();
        World {
            cfg: Cfg { kind, b: f.b(b), calc, lim },
            geoms: syms.iter().map(|s| s.geom()).collect(),
            boxes: syms.iter().map(|s| s.bbox()).collect(),
            cgeoms: cmps.iter().map(|s| s.geom()).collect(),
            syms,
            cmps,
            table: Arc::new(table),
            idx: 0,
        }
    }
    /// More comparators, given in the tree's own coordinates.
    pub fn add_cmps(&mut self, cmps: &[Shape]) {
        let mut t = (*self.table).clone();
        for c in cmps {
            t.push(self.syms.iter().map(|s| ref_dist(self.cfg.calc, c, s)).collect());
            self.cmps.push(c.clone());
            self.cgeoms.push(c.geom());
        }
        self.table = Arc::new(t);
    }
    pub fn with(&self, kind: Kind, lim: Option<(u8, usize)>) -> World {
        let mut w = self.clone();
        w.cfg.kind = kind;
        w.cfg.lim = lim;
        w
    }
    pub fn scale(&self) -> f64 {
        let b = self.cfg.b;
        b.x1.abs().max(b.x2.abs()).max(b.y1.abs()).max(b.y2.abs()).max(1e-300)
    }
    /// Comparison tolerance for a distance near `d`: some hundred roundings of the coordinates; on
    /// the sphere no formula is well conditioned near the antipode.
    pub fn tol(&self, d: f64) -> f64 {
        match self.cfg.calc {
            CalcMethod::Spherical => sphere_tol(d),
            _ => 2e-13 * self.scale().max(if d.is_finite() { d.abs() } else { 0.0 }),
        }
    }
}

/// Cartesian product of kinds of configuration.
pub fn worlds(kind: Kind, frames: &[Frame], calc: CalcMethod, lims: &[Option<(u8, usize)>], syms: &[Shape], cmps: &[Shape]) -> Vec<World> {
    let mut v = vec![];
    for f in frames {
        let base = World::new(kind, *f, UNIT, calc, None, syms, cmps);
        for l in lims {
            let mut w = base.with(kind, *l);
            w.idx = v.len() as u64;
            v.push(w);
        }
    }
    v
}

/// One history executed on a fresh real tree and on the reference layout.
pub struct Run<'a> {
    pub w: &'a World,
    pub hist: Vec<usize>,
    pub tree: AnyTree<f64>,
    pub model: Model<f64>,
    /// Ids (history positions) the real tree accepted, in order.
    pub acc: Vec<usize>,
    pub res: Vec<Result<(), Error>>,
    /// Reported size after every step.
    pub sizes: Vec<usize>,
}

pub const FAR: Bx<f64> = Bx { x1: f64::MAX, y1: f64::MAX, x2: f64::MAX, y2: f64::MAX };

impl<'a> Run<'a> {
    pub fn new(w: &'a World) -> Run<'a> {
        let (md, mc) = w.cfg.limits();
        Run { w, hist: vec![], tree: mk(&w.cfg), model: Model::new(w.cfg.kind, w.cfg.b.into(), md, mc), acc: vec![], res: vec![], sizes: vec![] }
    }
    pub fn push(&mut self, s: usize) {
        let id = self.hist.len();
        self.hist.push(s);
        let r = self.tree.insert(id, self.w.geoms[s].clone());
        if r.is_ok() {
            self.acc.push(id);
            self.model.insert(self.w.boxes[s].map(Into::into).unwrap_or(FAR));
        }
        self.res.push(r);
        self.sizes.push(self.tree.size());
    }
    pub fn exec(w: &'a World, hist: &[usize], sink: &mut Sink) -> Run<'a> {
        let mut r = Run::new(w);
        for s in hist {
            sink.at(|| format!("{}\n  then insert {:?}", r.describe(), w.syms[*s]));
            r.push(*s);
        }
        sink.transitions += hist.len() as u64;
        sink.traces += 1;
        r
    }
    /// Ids of accepted data for model indices.
    pub fn ids(&self, idx: &[usize]) -> Vec<usize> {
        let mut v: Vec<usize> = idx.iter().map(|i| self.acc[*i]).collect();
        v.sort_unstable();
        v
    }
    pub fn shape(&self, id: usize) -> &Shape {
        &self.w.syms[self.hist[id]]
    }
    pub fn state(&self) -> u64 {
        let mut h = H::new();
        h.add(self.w.idx);
        fn go(c: &Cell<f64>, r: &Run, h: &mut H) {
            h.add(1 + c.kids.len() as u64);
            for i in &c.own {
                h.add(100 + r.hist[r.acc[*i]] as u64);
            }
            for k in &c.kids {
                go(k, r, h);
            }
        }
        go(&self.model.root, self, &mut h);
        h.0
    }
    pub fn describe(&self) -> String {
        let h: Vec<String> = self.hist.iter().enumerate().map(|(i, s)| format!("#{} {:?} -> {:?}", i, self.w.syms[*s], self.res[i])).collect();
        format!("tree {} after inserts [{}]", self.w.cfg.code(), h.join(", "))
    }
    pub fn code(&self) -> String {
        let mut s = String::from("use geo::{Line, LineString, Point, Polygon, Rect, coord};\nuse quadtree::*;\n#[test]\nfn replay() {\n");
        let ty = match self.w.cfg.kind {
            Kind::P => "PointQuadTree<Point<f64>, f64>",
            Kind::B => "BoundsQuadTree<Geometry<f64>, f64>",
        };
        s += &format!("    let mut t: {ty} = {};\n", self.w.cfg.code());
        for (i, k) in self.hist.iter().enumerate() {
            let mut c = self.w.syms[*k].code();
            if self.w.cfg.kind == Kind::P {
                c = c.trim_start_matches("Geometry::from(").trim_end_matches(')').to_string() + ")";
            }
            s += &format!("    println!(\"{{:?}}\", t.insert({c})); // #{i}\n");
        }
        s += "    println!(\"{t}\");\n    // now the call named above\n}\n";
        s
    }
    /// The cells as the real tree has them: structure and counts from the printed tree, contents
    /// from iteration order. None if the two do not fit together.
    pub fn real_layout(&self) -> Option<Cell<f64>> {
        let lines = parse(&self.tree.show()).ok()?;
        let ids = self.tree.ids(self.acc.len() * 2 + 16);
        let mut pos = vec![usize::MAX; self.hist.len()];
        for (i, id) in self.acc.iter().enumerate() {
            pos[*id] = i;
        }
        if lines.iter().map(|l| l.n).sum::<usize>() != ids.len() || ids.len() != self.acc.len() {
            return None;
        }
        fn go(lines: &[Line], at: &mut usize, b: Bx<f64>, depth: usize, ids: &mut std::vec::IntoIter<usize>, pos: &[usize]) -> Option<Cell<f64>> {
            let l = lines.get(*at)?;
            *at += 1;
            let own = (0..l.n).map(|_| ids.next().and_then(|i| pos.get(i).copied())).collect::<Option<Vec<_>>>()?;
            let mut c = Cell { b, depth, own, kids: vec![] };
            if lines.get(*at).is_some_and(|n| n.indent > l.indent) {
                c.split();
                let bs: Vec<Bx<f64>> = c.kids.iter().map(|k| k.b).collect();
                c.kids = bs.into_iter().map(|b| go(lines, at, b, depth + 1, ids, pos)).collect::<Option<Vec<_>>>()?;
            }
            Some(c)
        }
        let mut at = 0;
        go(&lines, &mut at, self.w.cfg.b.into(), 0, &mut ids.into_iter(), &pos)
    }
    /// Does the real tree have the reference layout, as far as printed structure and the sets of
    /// data per cell go?
    pub fn layout_matches(&self) -> Result<(), String> {
        let lines = parse(&self.tree.show())?;
        let cells = self.model.cells();
        if lines.len() != cells.len() {
            return Err(format!("{} cells printed, {} expected:\n{}", lines.len(), cells.len(), self.tree.show()));
        }
        let ids = self.tree.ids(self.acc.len() * 2 + 16);
        if ids.len() != self.acc.len() {
            return Err(format!("{} data iterated, {} accepted", ids.len(), self.acc.len()));
        }
        let mut at = 0;
        for (l, c) in lines.iter().zip(&cells) {
            if l.indent != 4 * c.depth || (l.x - c.b.x1).abs() > 0.0051 || (l.y - c.b.y1).abs() > 0.0051 || l.n != c.own.len() {
                return Err(format!(
                    "cell printed as {:?}, expected depth {} low corner ({}, {}) holding {}:\n{}",
                    l,
                    c.depth,
                    c.b.x1,
                    c.b.y1,
                    c.own.len(),
                    self.tree.show()
                ));
            }
            let mut got = ids[at..at + c.own.len()].to_vec();
            got.sort_unstable();
            at += c.own.len();
            let want = self.ids(&c.own);
            if got != want {
                return Err(format!("cell at depth {} low corner ({}, {}) holds {:?}, expected {:?}:\n{}", c.depth, c.b.x1, c.b.y1, got, want, self.tree.show()));
            }
        }
        Ok(())
    }
}

/// Families of histories.
#[derive(Clone, Debug)]
pub enum Fam {
    /// All sequences of length 0..=l over n symbols.
    Seq { n: usize, l: usize },
    /// All subsets of n symbols, in ascending order.
    Sub { n: usize },
    /// All multiplicity vectors over n symbols with entries 0..=m, dealt round-robin.
    Mult { n: usize, m: usize },
    /// Given histories.
    List(Arc<Vec<Vec<usize>>>),
}

impl Fam {
    pub fn count(&self) -> usize {
        match self {
            Fam::Seq { n, l } => (0..=*l).map(|k| n.pow(k as u32)).sum(),
            Fam::Sub { n } => 1 << n,
            Fam::Mult { n, m } => (m + 1).pow(*n as u32),
            Fam::List(v) => v.len(),
        }
    }
    pub fn get(&self, mut i: usize) -> Vec<usize> {
        match self {
            Fam::Seq { n, l } => {
                for k in 0..=*l {
                    let c = n.pow(k as u32);
                    if i < c {
                        let mut v = vec![0; k];
                        for e in v.iter_mut().rev() {
                            *e = i % n;
                            i /= n;
                        }
                        return v;
                    }
                    i -= c;
                }
                unreachable!()
            }
            Fam::Sub { n } => (0..*n).filter(|b| i >> b & 1 == 1).collect(),
            Fam::Mult { n, m } => {
                let mut d: Vec<usize> = (0..*n)
                    .map(|_| {
                        let x = i % (m + 1);
                        i /= m + 1;
                        x
                    })
                    .collect();
                let mut v = vec![];
                loop {
                    let before = v.len();
                    for (s, x) in d.iter_mut().enumerate() {
                        if *x > 0 {
                            *x -= 1;
                            v.push(s);
                        }
                    }
                    if v.len() == before {
                        return v;
                    }
                }
            }
            Fam::List(v) => v[i].clone(),
        }
    }
    pub fn words(&self) -> String {
        match self {
            Fam::Seq { n, l } => format!("every sequence of up to {l} inserts over {n} symbols"),
            Fam::Sub { n } => format!("every subset of {n} symbols"),
            Fam::Mult { n, m } => format!("every combination of 0..={m} copies of {n} symbols"),
            Fam::List(v) => format!("{} given histories", v.len()),
        }
    }
}

/// Execute every history of the family in every world.
pub fn hist_space(
    name: &str,
    ws: Vec<World>,
    fam: Fam,
    per: usize,
    check: impl Fn(&Run, &mut Sink) -> Result<(), String> + Sync + Send + 'static,
) -> Space {
    let n = fam.count();
    let blocks = n.div_ceil(per);
    let what = format!("{} in each of {} worlds (configuration x frame); {} histories", fam.words(), ws.len(), n * ws.len());
    Space::new(name, what, blocks * ws.len(), move |chunk, sink| -> Res {
        let w = &ws[chunk / blocks];
        let b = chunk % blocks;
        for i in b * per..((b + 1) * per).min(n) {
            let h = fam.get(i);
            let r = Run::exec(w, &h, sink);
            sink.states.insert(r.state());
            let v = check(&r, sink);
            if i == n / 2 {
                sink.sample(|| r.describe());
            }
            sink.judge(v, || (r.describe(), r.code()))?;
        }
        Ok(())
    })
}

/// Execute long histories incrementally, checking after every `every`-th step and at the end.
pub fn ladder_space(
    name: &str,
    ws: Vec<World>,
    lists: Vec<Vec<usize>>,
    every: usize,
    check: impl Fn(&Run, &mut Sink) -> Result<(), String> + Sync + Send + 'static,
) -> Space {
    planned_space(name, ws, lists, &format!("every prefix (step {every})"), move |_, n| (1..=n).filter(|i| i % every == 0 || *i == n).collect(), check)
}

/// Execute long histories incrementally, checking at the prefix lengths given by `plan` for the
/// world and the length of the list; the last one ends the history.
pub fn planned_space(
    name: &str,
    ws: Vec<World>,
    lists: Vec<Vec<usize>>,
    when: &str,
    plan: impl Fn(&World, usize) -> Vec<usize> + Sync + Send + 'static,
    check: impl Fn(&Run, &mut Sink) -> Result<(), String> + Sync + Send + 'static,
) -> Space {
    let n = lists.len();
    let long = lists.iter().map(|l| l.len()).max().unwrap_or(0);
    let what = format!("{when} of {n} structured histories of up to {long} inserts, in each of {} worlds", ws.len());
    Space::new(name, what, n * ws.len(), move |chunk, sink| -> Res {
        let w = &ws[chunk / n];
        let list = &lists[chunk % n];
        let stops = plan(w, list.len());
        let mut r = Run::new(w);
        for (i, s) in list.iter().take(stops.last().copied().unwrap_or(0)).enumerate() {
            sink.at(|| format!("{}\n  then insert {:?}", r.describe(), w.syms[*s]));
            r.push(*s);
            sink.transitions += 1;
            if stops.contains(&(i + 1)) {
                sink.states.insert(r.state());
                sink.traces += 1;
                let v = check(&r, sink);
                sink.judge(v, || (r.describe(), r.code()))?;
            }
        }
        Ok(())
    })
}

/// A lattice of points over the unit bounds with n x n positions, first..last inclusive.
pub fn lattice(n: usize, lo: f64, hi: f64) -> Vec<Shape> {
    let mut v = vec![];
    for j in 0..n {
        for i in 0..n {
            let s = (hi - lo) / (n - 1) as f64;
            v.push(pt(lo + s * i as f64, lo + s * j as f64));
        }
    }
    v
}

/// Fixed orders over n symbols: ascending, descending, strided, and alternating ends.
pub fn orders(n: usize) -> Vec<Vec<usize>> {
    let mut v = vec![(0..n).collect::<Vec<_>>(), (0..n).rev().collect()];
    for s in [7, 11, 13] {
        if n % s != 0 {
            v.push((0..n).map(|i| i * s % n).collect());
        }
    }
    let mut z = vec![];
    for i in 0..n / 2 {
        z.push(i);
        z.push(n - 1 - i);
    }
    if n % 2 == 1 {
        z.push(n / 2);
    }
    v.push(z);
    v
}
