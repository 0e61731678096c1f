//! All shapes of each kind over the corners and splits of the cells: as data, as queries and as
//! comparators. Shapes that fill, border, cross or surround whole cells without being boxes.

use super::*;
use crate::model::Kind;

fn grid(g: &[f64]) -> Vec<C> {
    g.iter().flat_map(|y| g.iter().map(|x| (*x, *y))).collect()
}

/// Every line between positions of the grid; in both directions if asked to.
fn lines(g: &[f64], both: bool) -> Vec<Shape> {
    let p = grid(g);
    let mut v = vec![];
    for (i, a) in p.iter().enumerate() {
        for (j, b) in p.iter().enumerate() {
            if i < j || (both && i != j) {
                // Alternate the direction where only one is taken
                v.push(if both || (i + j) % 2 == 0 { Shape::Ln(*a, *b) } else { Shape::Ln(*b, *a) });
            }
        }
    }
    v
}

/// Every box with corners on the grid, flat ones too.
fn boxes(g: &[f64]) -> Vec<Shape> {
    let mut spans = vec![];
    for (i, a) in g.iter().enumerate() {
        for b in &g[i..] {
            spans.push((*a, *b));
        }
    }
    spans.iter().flat_map(|x| spans.iter().map(|y| rc(x.0, y.0, x.1, y.1))).collect()
}

/// Every triangle on the grid.
fn triangles(g: &[f64]) -> Vec<Shape> {
    let p = grid(g);
    let mut v = vec![];
    for i in 0..p.len() {
        for j in i + 1..p.len() {
            for k in j + 1..p.len() {
                let (a, b, c) = (p[i], p[j], p[k]);
                if (b.0 - a.0) * (c.1 - a.1) != (b.1 - a.1) * (c.0 - a.0) {
                    // Both windings
                    v.push(Shape::Pg(if (i + j + k) % 2 == 0 { vec![a, b, c] } else { vec![a, c, b] }, vec![]));
                }
            }
        }
    }
    v
}

/// Every line string through three positions of the grid, back and forth included.
fn strings(g: &[f64]) -> Vec<Shape> {
    let p = grid(g);
    let mut v = vec![];
    for a in &p {
        for b in &p {
            for c in &p {
                if a != b && b != c {
                    v.push(Shape::Ls(vec![*a, *b, *c]));
                }
            }
        }
    }
    v
}

/// Rings along the sides of a cell, frames around its middle and polygons within it.
fn around(x1: f64, y1: f64, x2: f64, y2: f64) -> Vec<Shape> {
    let (w, h) = (x2 - x1, y2 - y1);
    let at = |x: f64, y: f64| (x1 + w * x / 8.0, y1 + h * y / 8.0);
    let ring = |v: &[(f64, f64)]| -> Vec<C> { v.iter().map(|c| at(c.0, c.1)).collect() };
    let sides = ring(&[(0.0, 0.0), (8.0, 0.0), (8.0, 8.0), (0.0, 8.0)]);
    let mut closed = sides.clone();
    closed.push(sides[0]);
    let diamond = ring(&[(4.0, 0.0), (8.0, 4.0), (4.0, 8.0), (0.0, 4.0)]);
    let inner = ring(&[(4.0, 1.0), (7.0, 4.0), (4.0, 7.0), (1.0, 4.0)]);
    let eight = ring(&[(2.0, 1.0), (6.0, 1.0), (7.0, 2.0), (7.0, 6.0), (6.0, 7.0), (2.0, 7.0), (1.0, 6.0), (1.0, 2.0)]);
    let square = ring(&[(1.0, 1.0), (7.0, 1.0), (7.0, 7.0), (1.0, 7.0)]);
    let small = ring(&[(4.0, 2.0), (6.0, 4.0), (4.0, 6.0), (2.0, 4.0)]);
    vec![
        Shape::Ls(closed),
        Shape::Ls(sides.clone()),
        Shape::Pg(sides.clone(), vec![]),
        Shape::Pg(sides.clone(), vec![inner.clone()]),
        Shape::Pg(sides.clone(), vec![eight]),
        Shape::Pg(sides.clone(), vec![square]),
        Shape::Pg(diamond.clone(), vec![]),
        Shape::Pg(diamond.clone(), vec![small.clone()]),
        Shape::Pg(small, vec![]),
        Shape::Ls([diamond.clone(), vec![diamond[0]]].concat()),
        // L, U and Z
        Shape::Pg(ring(&[(0.0, 0.0), (8.0, 0.0), (8.0, 1.0), (1.0, 1.0), (1.0, 8.0), (0.0, 8.0)]), vec![]),
        Shape::Pg(ring(&[(0.0, 0.0), (1.0, 0.0), (1.0, 7.0), (7.0, 7.0), (7.0, 0.0), (8.0, 0.0), (8.0, 8.0), (0.0, 8.0)]), vec![]),
        Shape::Ls(ring(&[(0.0, 0.0), (8.0, 0.0), (0.0, 8.0), (8.0, 8.0)])),
        // All four corners, not the middles of the sides
        Shape::Ls(ring(&[(0.0, 0.0), (8.0, 8.0), (4.0, 4.0), (8.0, 0.0), (0.0, 8.0)])),
    ]
}

fn cells() -> Vec<Shape> {
    [(0.0, 0.0, 8.0, 8.0), (0.0, 0.0, 4.0, 4.0), (4.0, 4.0, 8.0, 8.0), (4.0, 0.0, 6.0, 2.0), (2.0, 2.0, 6.0, 6.0)].iter().flat_map(|c| around(c.0, c.1, c.2, c.3)).collect()
}

/// Data for a bounds tree.
pub fn data(tier: Tier) -> Vec<Shape> {
    let q = tier == Tier::Quick;
    let mut v = cells();
    if q {
        v.extend(boxes(&[0.0, 2.0, 4.0, 8.0]).into_iter().step_by(2));
        v.extend(lines(&[0.0, 4.0, 8.0], false));
        v.extend(lines(&[0.0, 2.0, 4.0, 7.0], false).into_iter().step_by(2));
        v.extend(triangles(&[0.0, 4.0, 8.0]).into_iter().step_by(2));
        v.extend(strings(&[0.0, 4.0, 8.0]).into_iter().step_by(11));
    } else {
        v.extend(boxes(&[0.0, 2.0, 4.0, 5.0, 8.0]));
        v.extend(lines(&[0.0, 4.0, 8.0], true));
        v.extend(lines(&[0.0, 2.0, 4.0, 6.0, 7.0], false));
        v.extend(triangles(&[0.0, 4.0, 8.0]));
        v.extend(triangles(&[1.0, 2.0, 4.0]));
        v.extend(strings(&[0.0, 4.0, 8.0]).into_iter().step_by(3));
        v.extend(grid(&[0.0, 2.0, 4.0, 8.0]).into_iter().map(Shape::Pt));
    }
    v
}

/// Comparators: all touch the bounds.
pub fn comparators(tier: Tier) -> Vec<Shape> {
    let q = tier == Tier::Quick;
    let mut v: Vec<Shape> = grid(&[0.0, 3.0, 6.0]).into_iter().map(Shape::Pt).collect();
    v.extend([pt(1.0, 7.0), pt(8.0, 8.0), pt(4.0, 4.0)]);
    let s = if q { 3 } else { 1 };
    v.extend(cells().into_iter().take(if q { 28 } else { 70 }).step_by(if q { 2 } else { 1 }));
    v.extend(around(-1.0, -1.0, 9.0, 9.0).into_iter().skip(3));
    v.extend(boxes(&[0.0, 4.0, 8.0]).into_iter().step_by(s));
    v.extend(lines(&[0.0, 4.0, 8.0], false).into_iter().step_by(s));
    v.extend(triangles(&[0.0, 4.0, 8.0]).into_iter().step_by(4 * s));
    v.extend(strings(&[0.0, 4.0, 8.0]).into_iter().step_by(17 * s));
    let all = rc(0.0, 0.0, 8.0, 8.0);
    v.retain(|c| touch(c, &all));
    v
}

/// Each datum before and after two small ones that divide the root; those that share a bounding
/// box, or start at the same position, next to one another.
pub fn lists(d: &[Shape]) -> Vec<Vec<usize>> {
    let n = d.len();
    let mut v: Vec<Vec<usize>> = (0..n).flat_map(|i| [vec![i, n, n + 1], vec![n, n + 1, i]]).collect();
    for i in 0..n {
        let bb = |s: &Shape| s.bbox().map(|b| [b.x1, b.y1, b.x2, b.y2]);
        let alike: Vec<usize> = (i + 1..n).filter(|j| bb(&d[i]) == bb(&d[*j])).collect();
        let first: Vec<usize> = (i + 1..n).filter(|j| d[i].verts()[0] == d[*j].verts()[0] && bb(&d[i]) != bb(&d[*j])).collect();
        for j in [alike.first(), alike.get(alike.len() / 2), first.first(), first.get(first.len() / 2)].into_iter().flatten() {
            v.push(vec![i, *j, n]);
            v.push(vec![*j, i, n]);
        }
    }
    v
}

fn fillers() -> [Shape; 2] {
    [pt(7.75, 7.5), rc(7.5, 7.75, 7.625, 7.875)]
}

/// Bounds trees with each datum of the catalogue, after a map of the unit bounds onto `b`.
pub fn trees(tier: Tier, calc: CalcMethod, b: B, go: impl Fn(&[Shape]) -> Vec<Shape>, keep: impl Fn(&Shape) -> bool, cmps: &[Shape], lims: &[Option<(u8, usize)>]) -> (Vec<World>, Vec<Vec<usize>>) {
    let mut d: Vec<Shape> = data(tier).into_iter().filter(|s| keep(s)).collect();
    let ls = lists(&d);
    d.extend(fillers());
    let base = World::new(Kind::B, Frame::ID, b, calc, None, &go(&d), &go(cmps));
    let ws = lims
        .iter()
        .enumerate()
        .map(|(i, l)| {
            let mut w = base.with(Kind::B, *l);
            w.idx = i as u64;
            w
        })
        .collect();
    (ws, ls)
}

/// The catalogue under a check, all in one space.
pub fn space(name: &str, tier: Tier, cmps: &[Shape], check: impl Fn(&Run, &mut Sink) -> Result<(), String> + Sync + Send + 'static) -> Space {
    let lims: &[Option<(u8, usize)>] = if tier == Tier::Quick || !cmps.is_empty() { &[Some((2, 1)), Some((1, 0))] } else { &[Some((2, 1)), Some((1, 0)), Some((3, 0)), Some((4, 2))] };
    let (ws, ls) = trees(tier, CalcMethod::Euclidean, UNIT, |s| s.to_vec(), |_| true, cmps, lims);
    let n = ls.len();
    hist_space(name, ws, Fam::List(ls.into()), n.div_ceil(64), check)
}

/// Points on the splits of a point tree under comparators of the catalogue.
pub fn points(tier: Tier, cmps: &[Shape], check: impl Fn(&Run, &mut Sink) -> Result<(), String> + Sync + Send + 'static) -> Space {
    let syms = lattice(3, 0.0, 8.0);
    let lims = [Some((2, 1)), Some((1, 0))];
    hist_space("catalog-P", worlds(Kind::P, &frames()[..1], CalcMethod::Euclidean, &lims, &syms, cmps), Fam::Sub { n: if tier == Tier::Quick { 6 } else { 9 } }, 4, check)
}

/// Every ordered pair of data.
pub fn pairs(name: &str, tier: Tier, check: impl Fn(&Run, &mut Sink) -> Result<(), String> + Sync + Send + 'static) -> Space {
    let d = data(tier);
    let n = d.len();
    hist_space(name, worlds(Kind::B, &frames()[..1], CalcMethod::Euclidean, &[Some((2, 1))], &d, &[]), Fam::Seq { n, l: 2 }, n * n / 512, check)
}
