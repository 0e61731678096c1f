//! Shapes of many vertices and many holes: whichever vertex, segment or ring it is that matters,
//! it is taken into account.

use super::*;
use crate::model::Kind;

/// Vertex counts, small ones all and around powers of two.
pub fn counts(tier: Tier) -> Vec<usize> {
    match tier {
        Tier::Quick => (2..=10).chain([15, 16, 17, 18, 31, 32, 33, 34, 63, 64, 65, 66, 129]).collect(),
        Tier::Thorough => (2..=70).chain([100, 127, 128, 129, 130, 255, 256, 257, 258]).collect(),
    }
}

/// Some that are long by any measure, with the places where one vertex stands out.
fn long(counts: &[usize]) -> Vec<(usize, usize)> {
    counts.iter().flat_map(|n| [0, 1, n / 3, n / 2, n - 2, n - 1].map(|k| (*n, k))).collect()
}

/// Spacing that keeps coordinates exact and `n` vertices within 8.
pub fn step(n: usize) -> f64 {
    8.0 / (n.max(2) - 1).next_power_of_two() as f64
}

/// A slightly wavy line near y = 4 with `n` vertices of which number `k` reaches `to`.
pub fn spike(n: usize, k: usize, to: f64) -> Vec<C> {
    (0..n).map(|i| (i as f64 * step(n), if i == k { to } else { 4.0 + (i % 2) as f64 / 64.0 })).collect()
}

pub fn spike_ls(n: usize, k: usize, to: f64) -> Shape {
    Shape::Ls(spike(n, k, to))
}

/// The same as the lower side of a polygon (n + 2 vertices) with top at y = 6.
pub fn spike_pg(n: usize, k: usize, to: f64) -> Shape {
    let mut v = spike(n, k, to);
    v.push(((n - 1) as f64 * step(n), 6.0));
    v.push((0.0, 6.0));
    Shape::Pg(v, vec![])
}

/// A plate with `n` holes in a row, alternately triangles and squares.
pub fn plate(n: usize) -> Shape {
    let w = step(n + 1);
    let d = w.min(2.0);
    let holes = (0..n)
        .map(|i| {
            let (x, m) = (i as f64 * w + d / 8.0, d * 0.75);
            if i % 2 == 0 { vec![(x, 2.0), (x + m, 2.0), (x + m, 2.0 + m), (x, 2.0 + m)] } else { vec![(x, 2.0), (x + m, 2.0), (x, 2.0 + m)] }
        })
        .collect();
    // With more and more vertices on its outside
    let mut out = vec![(0.0, 0.0), (8.0, 0.0), (8.0, 4.0)];
    out.extend((1..=n / 2).map(|i| (8.0 - i as f64 * step(n + 1), 4.0)));
    out.push((0.0, 4.0));
    Shape::Pg(out, holes)
}

/// Within hole `k` of a plate: a point and small shapes of each kind.
pub fn in_hole(n: usize, k: usize) -> Vec<Shape> {
    let w = step(n + 1);
    let d = w.min(2.0);
    let f = Frame::new(k as f64 * w + d / 8.0, 2.0, d / 8.0, d / 8.0);
    [pt(1.0, 1.0), pt(2.0, 0.5), rc(0.5, 1.0, 1.0, 2.0), ln(1.0, 2.0, 2.0, 1.0), Shape::Ls(vec![(1.0, 1.0), (1.0, 2.0), (2.0, 1.0)]), Shape::Pg(vec![(1.0, 1.0), (2.0, 1.0), (1.0, 2.5)], vec![])]
        .iter()
        .map(|s| f.s(s))
        .collect()
}

pub fn swap(s: &Shape) -> Shape {
    s.map(&|c| (c.1, c.0))
}

/// Counterparts for a spike of `n` vertices at `k`, down to y = 0.5.
fn under(n: usize, k: usize) -> Vec<Shape> {
    let x = k as f64 * step(n);
    let e = step(n) / 8.0;
    let mut v = vec![
        pt(x, 0.0),
        rc(x - e, -1.0, x + e, 0.25),
        ln(-1.0, 0.0, 9.0, 0.0),
        Shape::Ls(vec![(x - 1.0, -0.5), (x, 0.0), (x + 1.0, -0.5)]),
        Shape::Pg(vec![(x - e, -1.0), (x + e, -1.0), (x, 0.25)], vec![]),
        // Just touched, and crossed
        pt(x, 0.5),
        rc(x - e, 0.0, x + e, 0.5),
        ln(x - e, 1.0, x + e, 1.0),
    ];
    // Beside every other segment
    for i in (0..n.saturating_sub(1)).step_by(1 + n / 40) {
        v.push(pt((i as f64 + 0.5) * step(n), 3.75));
        v.push(pt((i as f64 + 0.5) * step(n), 4.25));
    }
    v
}

/// A long way along the bottom: vertices `k` and `k + 1` both reach down to y = 0.5.
fn trough(n: usize, k: usize) -> Vec<C> {
    (0..n).map(|i| (i as f64 * step(n), if i == k || i == k + 1 { 0.5 } else { 4.0 + (i % 2) as f64 / 64.0 })).collect()
}

fn trough_shapes(n: usize, k: usize) -> (Vec<Shape>, Vec<Shape>) {
    let v = trough(n, k);
    let mut w = v.clone();
    w.push(((n - 1) as f64 * step(n), 6.0));
    w.push((0.0, 6.0));
    // Below and across the middle of the bottom, away from any vertex
    let (m, e) = ((k as f64 + 0.5) * step(n), step(n) / 8.0);
    let b = vec![
        pt(m, 0.25),
        pt(m, 0.5),
        rc(m - e, -1.0, m + e, 0.5 - e),
        rc(m - e, 0.25, m + e, 0.5),
        rc(m - e, 0.25, m + e, 0.75),
        ln(m, 0.25, m, 0.75),
        ln(m - e, -1.0, m, 0.5 - e),
        Shape::Ls(vec![(m, -1.0), (m + e, 0.5 - e), (m + e, -1.0)]),
        Shape::Ls(vec![(m, 0.25), (m, 0.75), (m + e, 0.75)]),
        Shape::Pg(vec![(m - e, -1.0), (m + e, -1.0), (m, 0.5 - e)], vec![]),
        Shape::Pg(vec![(m - e, 0.25), (m + e, 0.25), (m, 0.75)], vec![]),
    ];
    (vec![Shape::Ls(v), Shape::Pg(w, vec![])], b)
}

/// A polygon with a hole of many vertices of which number `k` juts into it, and what lies there.
fn jut(n: usize, k: usize) -> (Shape, Vec<Shape>) {
    let mut h: Vec<C> = (0..n).map(|i| (i as f64 * step(n), if i == k { 5.0 } else { 4.0 - (i % 2) as f64 / 64.0 })).collect();
    h.push(((n - 1) as f64 * step(n), 6.0));
    h.push((0.0, 6.0));
    let (x, e) = (k as f64 * step(n), step(n) / 8.0);
    let x0 = (n - 1) as f64 * step(n);
    // Keep off the upright sides
    let (l, r) = ((x - e).max(e), (x + e).min(x0 - e));
    let m = (l + r) / 2.0;
    let b = vec![
        pt(m, 5.125),
        pt(m, 5.5),
        rc(l.min(r), 5.25, l.max(r), 5.5),
        ln(l, 5.25, r, 5.5),
        Shape::Ls(vec![(l, 5.5), (m, 5.25), (r, 5.5)]),
        Shape::Pg(vec![(m - e / 4.0, 5.5), (m, 5.25), (m + e / 4.0, 5.5)], vec![]),
        pt(x, 5.0),
        pt(x0 / 2.0, 3.5),
    ];
    (Shape::Pg(vec![(-1.0, 3.0), (9.0, 3.0), (9.0, 7.0), (-1.0, 7.0)], vec![vec![(-0.75, 6.5), (-0.5, 6.5), (-0.5, 6.75)], h]), b)
}

/// Every (n, k) with its shapes and what to measure them against.
fn pairs(n: usize, k: usize) -> (Vec<Shape>, Vec<Shape>) {
    let a = vec![spike_ls(n, k, 0.5), spike_pg(n, k, 0.5)];
    let mut b = under(n, k);
    // Long against long
    let flat: Vec<C> = (0..n).map(|i| (i as f64 * step(n), -1.0 - (i % 2) as f64 / 64.0)).collect();
    let mut down = flat.clone();
    down.extend([((n - 1) as f64 * step(n), -2.0), (0.0, -2.0)]);
    b.push(Shape::Ls(flat));
    b.push(Shape::Pg(down, vec![]));
    (a, b)
}

/// C12 and C13: `judge` decides a pair.
pub fn distances(tier: Tier, f: Frame, judge: impl Fn(&Shape, &Shape, &mut Sink) -> Res + Sync + Send + 'static) -> Space {
    let cs = counts(tier);
    let top = cs[cs.len() - 1];
    let what = format!("linestrings and polygons of up to {top} vertices of which any one comes near, and polygons of up to 33 holes, any of them around the other geometry, in frame {f:?}");
    let mut cases: Vec<(usize, usize, bool)> = vec![];
    for n in &cs {
        cases.extend((0..*n).map(|k| (*n, k, false)));
    }
    let far = if tier == Tier::Quick { [300, 1025] } else { [1025, 2500] };
    cases.extend(long(&far).iter().map(|(n, k)| (*n, *k, false)));
    for n in (1..=9).chain([15, 16, 17, 32, 33]) {
        cases.extend((0..n).map(|k| (n, k, true)));
    }
    let what = format!("{what}; some of {far:?} vertices");
    Space::cases("vertices", &what, cases, move |(n, k, holes), sink| {
        let (a, b) = if *holes {
            let mut b = in_hole(*n, *k);
            // On the frame between the holes too
            b.push(pt(*k as f64 * step(n + 1), 2.5));
            b.push(pt(4.0, -1.0));
            (vec![plate(*n)], b)
        } else {
            pairs(*n, *k)
        };
        let mut groups = vec![(a, b)];
        if !holes {
            if *k + 1 < *n {
                groups.push(trough_shapes(*n, *k));
            }
            let (p, b) = jut(*n, *k);
            groups.push((vec![p], b));
        }
        for (a, b) in &groups {
            for s in a {
                for t in b {
                    // Both ways up
                    judge(&f.s(s), &f.s(t), sink)?;
                    if n % 2 == 1 {
                        judge(&f.s(&swap(s)), &f.s(&swap(t)), sink)?;
                    }
                }
            }
        }
        Ok(())
    })
}

/// C01: whichever vertex it is that lies outside.
pub fn admission(tier: Tier) -> Space {
    let cs = counts(tier);
    let top = cs[cs.len() - 1];
    let mut cases: Vec<(usize, usize)> = cs.iter().flat_map(|n| (0..*n).map(|k| (*n, k))).collect();
    let far = [1025, 4099, 66000];
    cases.extend(long(&far).into_iter().filter(|(n, k)| *n < 5000 || *k == 1 || *k == n - 1));
    let what = format!("linestrings and polygons of up to {top} vertices, and some of {far:?}, any one of them reaching to, just inside or just beyond each side of the bounds, into empty and subdivided trees");
    Space::cases("vertices", &what, cases, move |(n, k), sink| {
        for lim in &[Some((3u8, 1usize)), None][..if *n > 5000 { 1 } else { 2 }] {
            let lim = *lim;
            let cfg = Cfg { kind: Kind::B, b: UNIT, calc: CalcMethod::Euclidean, lim };
            let mut t = mk(&cfg);
            let mut id = 0;
            for c in [(1.0, 1.0), (5.0, 7.0), (4.0, 4.0)] {
                t.insert(id, pt(c.0, c.1).geom()).ok();
                id += 1;
            }
            for (to, fits) in [(0.0, true), (0.0f64.next_down(), false), (-0.5, false), (8.0, true), (8.0f64.next_up(), false), (1e9, false), (3.0, true)] {
                for s in [spike_ls(*n, *k, to), spike_pg(*n, *k, to), swap(&spike_ls(*n, *k, to)), swap(&spike_pg(*n, *k, to))] {
                    let case = || if *n > 300 { format!("tree {} with {} data; insert {} vertices of which number {k} reaches {to:?} ({})", cfg.code(), t.size(), n, s.kind()) } else { format!("tree {} with {} data; insert {s:?}", cfg.code(), t.size()) };
                    sink.at(&case);
                    let case = case();
                    let before = t.size();
                    let got = t.insert(id, s.geom());
                    id += 1;
                    sink.evals += 1;
                    sink.transitions += 1;
                    sink.out(if got.is_ok() { "accepted" } else { "OutOfBounds" });
                    sink.nontrivial += 1;
                    let want = if fits { Ok(()) } else { Err(Error::OutOfBounds) };
                    let mut r = Ok(());
                    if got != want {
                        r = Err(format!("insert gave {got:?}, expected {want:?}"));
                    } else if t.size() != before + fits as usize {
                        r = Err(format!("size went from {before} to {}", t.size()));
                    }
                    sink.judge(r, || (case, if *n > 300 { String::new() } else { format!("    t.insert({})", s.code()) }))?;
                }
            }
            sink.traces += 1;
        }
        Ok(())
    })
}

/// Data for trees: for a vertex count, spikes at every place, shrunk into various parts of the bounds.
fn data(n: usize) -> Vec<Shape> {
    let mut v = vec![];
    let every = 1 + n / 17;
    for k in (0..n).step_by(every) {
        // Shrunk to 1/4 .. 1/2 and moved about
        let i = v.len();
        let s = [0.25, 0.125, 0.5][i % 3];
        let f = Frame::new((i * 5 % 16) as f64 * 0.25, (i * 3 % 14) as f64 * 0.25, s, s);
        v.push(f.s(&match i % 4 {
            0 => spike_ls(n, k, 0.5),
            1 => spike_pg(n, k, 0.5),
            2 => swap(&spike_ls(n, k, 7.5)),
            _ => swap(&spike_pg(n, k, 0.25)),
        }));
    }
    // A plate with a datum in each hole
    let m = 1 + n / 8;
    v.push(plate(m));
    for k in 0..m {
        v.push(in_hole(m, k)[k % 6].clone());
    }
    v
}

/// Worlds (one per vertex count and limits) and histories for trees of such data. Comparators by
/// request: points beside all of them, and long ones.
pub fn trees(tier: Tier, calc: CalcMethod, f: impl Fn(&[Shape]) -> Vec<Shape>, b: B, cmps: bool) -> Vec<(String, Vec<World>, Vec<Vec<usize>>)> {
    let q = tier == Tier::Quick;
    let ns: &[usize] = if q { &[3, 5, 9, 17, 33, 65] } else { &[2, 3, 4, 5, 6, 8, 9, 12, 16, 17, 32, 33, 48, 64, 65, 128, 129] };
    let lims: &[Option<(u8, usize)>] = if q { &[Some((3, 1)), None] } else { &[Some((3, 1)), None, Some((0, 0)), Some((5, 0)), Some((2, 4))] };
    let mut v = vec![];
    for n in ns {
        let syms = data(*n);
        let mut cs = vec![];
        if cmps {
            for (i, s) in syms.iter().enumerate() {
                let b = s.bbox().unwrap();
                let (mx, my) = ((b.x1 + b.x2) / 2.0, (b.y1 + b.y2) / 2.0);
                cs.push(pt(b.x1 + (b.x2 - b.x1) * (i % 5) as f64 / 4.0, b.y1));
                cs.push(pt(mx, if i % 2 == 0 { my } else { b.y2 }));
            }
            if !matches!(calc, CalcMethod::Spherical) {
                let g = Frame::new(0.125, 0.0, 0.875, 1.0);
                for k in [0, n / 2, n - 1] {
                    cs.push(g.s(&spike_ls(*n, k, 0.125)));
                    cs.push(g.s(&swap(&spike_ls(*n, k, 7.875))));
                    cs.push(g.s(&spike_pg(*n, k, 0.25)));
                }
            }
        }
        let (syms, cs) = (f(&syms), f(&cs));
        let ws = lims
            .iter()
            .map(|l| {
                let mut w = World::new(Kind::B, Frame::ID, b, calc, *l, &syms, &cs);
                w.idx = *n as u64 * 16 + l.map_or(15, |l| l.0 as u64);
                w
            })
            .collect();
        let mut lists = orders(syms.len());
        lists.truncate(if q { 2 } else { 4 });
        // The plate alone, none of its holes filled
        lists.push(vec![syms.len() - 2 - n / 8]);
        v.push((format!("vertices{n}"), ws, lists));
    }
    v
}
