//! Zero has two signs that compare equal: data, queries, comparators and bounds at ±0.

use super::*;
use crate::model::Kind;

const N: f64 = -0.0;

/// Bounds split, starting, ending or lying at zero.
pub fn bounds(u: f64) -> Vec<B> {
    vec![
        B::new(-u, -u, u, u),
        B::new(0.0, 0.0, u, u),
        B::new(N, N, u, u),
        B::new(-u, -u, 0.0, 0.0),
        B::new(-u, -u, N, N),
        B::new(N, -u, 0.0, u),
        B::new(0.0, N, u, N),
        // Split at a zero that is not in the middle of the root
        B::new(-u, -u / 2.0, 3.0 * u, u / 2.0 * 3.0),
    ]
}

/// Every position from `{-z, -0, 0, z}`; the zeros first.
pub fn points(z: f64) -> Vec<Shape> {
    let g = [N, 0.0, -z, z];
    let mut v: Vec<Shape> = g.iter().flat_map(|x| g.iter().map(|y| pt(*x, *y))).collect();
    v.sort_by_key(|s| matches!(s, Shape::Pt((x, y)) if x.abs() == z && y.abs() == z));
    v
}

/// Boxes and other shapes reaching, leaving, crossing or lying on either zero.
pub fn shapes(z: f64) -> Vec<Shape> {
    let spans = [(N, z), (-z, 0.0), (-z, N), (0.0, z), (N, 0.0), (0.0, N), (-z, z)];
    let mut v = vec![];
    for (i, x) in spans.iter().enumerate() {
        for (j, y) in spans.iter().enumerate() {
            if i == j || i + j == 3 || (i + 2 * j) % 5 == 0 {
                v.push(rc(x.0, y.0, x.1, y.1));
            }
        }
    }
    v.extend([
        pt(N, N),
        pt(N, z),
        ln(N, -z, 0.0, z),
        ln(z, N, -z, 0.0),
        ln(N, 0.0, 0.0, N),
        Shape::Ls(vec![(z, z), (N, N), (z, -z)]),
        Shape::Ls(vec![(N, z), (N, N), (z, N)]),
        Shape::Pg(vec![(N, N), (z, N), (N, z)], vec![]),
        Shape::Pg(vec![(0.0, 0.0), (-z, 0.0), (0.0, -z)], vec![]),
        Shape::Pg(vec![(-z, -z), (z, -z), (z, z), (-z, z)], vec![vec![(N, N), (z / 2.0, N), (N, z / 2.0)]]),
    ]);
    v
}

/// Worlds with their families of histories.
pub fn families(tier: Tier, calc: CalcMethod, kind: Kind, cmps: bool) -> Vec<(String, Vec<World>, Fam, usize)> {
    let q = tier == Tier::Quick;
    let sph = matches!(calc, CalcMethod::Spherical);
    let (u, z) = if sph { (0.5, 0.125) } else { (8.0, 2.0) };
    let (p, s) = (points(z), shapes(z));
    let syms: Vec<Shape> = match kind {
        Kind::P => p.clone(),
        Kind::B => s.iter().step_by(if q { 2 } else { 1 }).chain(&p[..4]).cloned().collect(),
    };
    let lims = [Some((3u8, 1usize)), None, Some((1, 0)), Some((9, 1))];
    let mut ws = vec![];
    for b in bounds(u) {
        // On the sphere other shapes than rectangles are measured from points only
        let mut cs: Vec<Shape> = if cmps { p[..if q { 8 } else { 16 }].to_vec() } else { vec![] };
        if cmps {
            let some: Vec<Shape> = match (sph, kind) {
                (true, Kind::B) => vec![],
                (true, Kind::P) => s.iter().filter(|s| matches!(s, Shape::Rc(..))).step_by(3).cloned().collect(),
                _ => s.iter().step_by(3).cloned().collect(),
            };
            cs.extend(some);
            // Searches start at the bounds
            cs.retain(|c| touch(c, &b.shape()));
        }
        let base = World::new(kind, Frame::ID, b, calc, None, &syms, &cs);
        for l in &lims[..if q { 2 } else { 4 }] {
            let mut w = base.with(kind, *l);
            w.idx = ws.len() as u64;
            ws.push(w);
        }
    }
    let n = syms.len();
    vec![
        (format!("zeros-seq-{kind:?}"), ws.clone(), Fam::Seq { n, l: if q || kind == Kind::B { 2 } else { 3 } }, 60),
        (format!("zeros-subset-{kind:?}"), ws, Fam::Sub { n: if q { 7 } else { 11 } }, 32),
    ]
}

/// The families of both kinds under a check.
pub fn spaces(tier: Tier, calc: CalcMethod, cmps: bool, check: impl Fn(&Run, &mut Sink) -> Result<(), String> + Sync + Send + Clone + 'static) -> Vec<Space> {
    [Kind::P, Kind::B].into_iter().flat_map(|k| families(tier, calc, k, cmps)).map(|(name, ws, fam, per)| hist_space(&name, ws, fam, per, check.clone())).collect()
}
