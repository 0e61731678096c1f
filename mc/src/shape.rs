//! Reference geometry: an independent description of shapes, their boxes and their
//! distances, written without using any code of the crate under test or of `geo`.

use geo::{Coord, Line, LineString, Point, Polygon, Rect};
use quadtree::Geometry;

pub type C = (f64, f64);

#[derive(Debug, Clone, PartialEq)]
pub enum Shape {
    Pt(C),
    Ln(C, C),
    Ls(Vec<C>),
    /// Exterior and holes, rings not closed.
    Pg(Vec<C>, Vec<Vec<C>>),
    Rc(C, C),
}
use Shape::*;

pub fn co(c: C) -> Coord<f64> {
    Coord { x: c.0, y: c.1 }
}

pub fn ls(v: &[C]) -> LineString<f64> {
    LineString::new(v.iter().map(|c| co(*c)).collect())
}

impl Shape {
    pub fn geom(&self) -> Geometry<f64> {
        match self {
            Pt(c) => Geometry::Point(Point::new(c.0, c.1)),
            Ln(a, b) => Geometry::Line(Line::new(co(*a), co(*b))),
            Ls(v) => Geometry::LineString(ls(v)),
            Pg(e, h) => Geometry::Polygon(Polygon::new(ls(e), h.iter().map(|r| ls(r)).collect())),
            Rc(a, b) => Geometry::Rect(Rect::new(co(*a), co(*b))),
        }
    }

    pub fn kind(&self) -> &'static str {
        match self {
            Pt(_) => "Point",
            Ln(..) => "Line",
            Ls(_) => "LineString",
            Pg(..) => "Polygon",
            Rc(..) => "Rect",
        }
    }

    pub fn verts(&self) -> Vec<C> {
        match self {
            Pt(c) => vec![*c],
            Ln(a, b) | Rc(a, b) => vec![*a, *b],
            Ls(v) => v.clone(),
            Pg(e, _) => e.clone(),
        }
    }

    pub fn map(&self, f: &dyn Fn(C) -> C) -> Shape {
        match self {
            Pt(c) => Pt(f(*c)),
            Ln(a, b) => Ln(f(*a), f(*b)),
            Ls(v) => Ls(v.iter().map(|c| f(*c)).collect()),
            Pg(e, h) => Pg(
                e.iter().map(|c| f(*c)).collect(),
                h.iter().map(|r| r.iter().map(|c| f(*c)).collect()).collect(),
            ),
            Rc(a, b) => Rc(f(*a), f(*b)),
        }
    }

    /// Bounding box, None if there is none. Matches the crate only for NaN-free shapes.
    pub fn bbox(&self) -> Option<B> {
        let v = self.verts();
        if v.is_empty() {
            return None;
        }
        let mut b = B { x1: v[0].0, y1: v[0].1, x2: v[0].0, y2: v[0].1 };
        for c in &v {
            b.x1 = b.x1.min(c.0);
            b.x2 = b.x2.max(c.0);
            b.y1 = b.y1.min(c.1);
            b.y2 = b.y2.max(c.1);
        }
        Some(b)
    }

    /// Rust source of a `quadtree::Geometry<f64>` for replay snippets.
    pub fn code(&self) -> String {
        let l = |v: &[C]| format!("LineString::from(vec!{v:?})");
        match self {
            Pt(c) => format!("Geometry::from(Point::new({:?}, {:?}))", c.0, c.1),
            Ln(a, b) => format!("Geometry::from(Line::new(coord!{{x:{:?},y:{:?}}}, coord!{{x:{:?},y:{:?}}}))", a.0, a.1, b.0, b.1),
            Ls(v) => format!("Geometry::from({})", l(v)),
            Pg(e, h) => format!("Geometry::from(Polygon::new({}, vec![{}]))", l(e), h.iter().map(|r| l(r)).collect::<Vec<_>>().join(", ")),
            Rc(a, b) => format!("Geometry::from(Rect::new(coord!{{x:{:?},y:{:?}}}, coord!{{x:{:?},y:{:?}}}))", a.0, a.1, b.0, b.1),
        }
    }

    fn rings(&self) -> Vec<Vec<C>> {
        match self {
            Rc(a, b) => vec![vec![*a, (b.0, a.1), *b, (a.0, b.1)]],
            Pg(e, h) => std::iter::once(e.clone()).chain(h.iter().cloned()).collect(),
            _ => vec![],
        }
    }

    fn segs(&self) -> Vec<(C, C)> {
        match self {
            Pt(c) => vec![(*c, *c)],
            Ln(a, b) => vec![(*a, *b)],
            Ls(v) => {
                if v.len() == 1 {
                    vec![(v[0], v[0])]
                } else {
                    v.windows(2).map(|w| (w[0], w[1])).collect()
                }
            }
            Pg(..) | Rc(..) => {
                let mut out = vec![];
                for r in self.rings() {
                    for i in 0..r.len() {
                        out.push((r[i], r[(i + 1) % r.len()]));
                    }
                }
                out
            }
        }
    }

    /// Is `p` in the interior of the area of this shape (even-odd over all rings)? Only
    /// meaningful for points that are not on a ring.
    fn area_has(&self, p: C) -> bool {
        let mut inside = false;
        for r in self.rings() {
            for i in 0..r.len() {
                let (a, b) = (r[i], r[(i + 1) % r.len()]);
                if (a.1 > p.1) != (b.1 > p.1) {
                    let x = a.0 + (p.1 - a.1) / (b.1 - a.1) * (b.0 - a.0);
                    if p.0 < x {
                        inside = !inside;
                    }
                }
            }
        }
        inside
    }

    /// Inside the area or on a ring.
    pub fn covers_pt(&self, p: C) -> bool {
        self.segs().iter().any(|s| on_seg(p, *s)) || self.area_has(p)
    }
}

fn cross(o: C, a: C, b: C) -> f64 {
    (a.0 - o.0) * (b.1 - o.1) - (a.1 - o.1) * (b.0 - o.0)
}

fn on_seg(p: C, s: (C, C)) -> bool {
    cross(s.0, s.1, p) == 0.0
        && p.0 >= s.0.0.min(s.1.0)
        && p.0 <= s.0.0.max(s.1.0)
        && p.1 >= s.0.1.min(s.1.1)
        && p.1 <= s.0.1.max(s.1.1)
}

fn segs_touch(s: (C, C), t: (C, C)) -> bool {
    if on_seg(s.0, t) || on_seg(s.1, t) || on_seg(t.0, s) || on_seg(t.1, s) {
        return true;
    }
    let d1 = cross(t.0, t.1, s.0);
    let d2 = cross(t.0, t.1, s.1);
    let d3 = cross(s.0, s.1, t.0);
    let d4 = cross(s.0, s.1, t.1);
    ((d1 > 0.0 && d2 < 0.0) || (d1 < 0.0 && d2 > 0.0)) && ((d3 > 0.0 && d4 < 0.0) || (d3 < 0.0 && d4 > 0.0))
}

fn pt_seg(p: C, s: (C, C)) -> f64 {
    let (dx, dy) = (s.1.0 - s.0.0, s.1.1 - s.0.1);
    let l2 = dx * dx + dy * dy;
    let t = if l2 == 0.0 { 0.0 } else { (((p.0 - s.0.0) * dx + (p.1 - s.0.1) * dy) / l2).clamp(0.0, 1.0) };
    let (ex, ey) = (p.0 - (s.0.0 + t * dx), p.1 - (s.0.1 + t * dy));
    (ex * ex + ey * ey).sqrt()
}

/// Do the two shapes share a point? Exact for coordinates with few significant bits.
pub fn touch(a: &Shape, b: &Shape) -> bool {
    let (sa, sb) = (a.segs(), b.segs());
    for s in &sa {
        for t in &sb {
            if segs_touch(*s, *t) {
                return true;
            }
        }
    }
    // No boundary contact: one is entirely inside or outside the other's area
    b.area_has(sa[0].0) || a.area_has(sb[0].0)
}

/// Planar distance between two shapes.
pub fn dist_e(a: &Shape, b: &Shape) -> f64 {
    if touch(a, b) {
        return 0.0;
    }
    let mut d = f64::INFINITY;
    for s in &a.segs() {
        for t in &b.segs() {
            d = d.min(pt_seg(s.0, *t)).min(pt_seg(s.1, *t)).min(pt_seg(t.0, *s)).min(pt_seg(t.1, *s));
        }
    }
    d
}

// ---------------------------------------------------------------- sphere

fn v3(p: C) -> [f64; 3] {
    [p.1.cos() * p.0.cos(), p.1.cos() * p.0.sin(), p.1.sin()]
}
fn dot(a: [f64; 3], b: [f64; 3]) -> f64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
fn norm(a: [f64; 3]) -> f64 {
    dot(a, a).sqrt()
}
fn vcross(a: [f64; 3], b: [f64; 3]) -> [f64; 3] {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}

/// Central angle between two positions, by vectors.
pub fn gc(p: C, q: C) -> f64 {
    let (a, b) = (v3(p), v3(q));
    norm(vcross(a, b)).atan2(dot(a, b))
}

/// Great-circle distance to the planar-projected closest point of a segment.
pub fn gc_pt_seg(p: C, s: (C, C)) -> f64 {
    let (dx, dy) = (s.1.0 - s.0.0, s.1.1 - s.0.1);
    let l2 = dx * dx + dy * dy;
    let t = if l2 == 0.0 { 0.0 } else { (((p.0 - s.0.0) * dx + (p.1 - s.0.1) * dy) / l2).clamp(0.0, 1.0) };
    gc(p, (s.0.0 + t * dx, s.0.1 + t * dy))
}

/// True distance from a point to a segment of a meridian, by vectors.
pub fn gc_pt_meridian(p: C, lng: f64, y1: f64, y2: f64) -> f64 {
    let mut d = gc(p, (lng, y1)).min(gc(p, (lng, y2)));
    let n = [-lng.sin(), lng.cos(), 0.0];
    let v = v3(p);
    let k = dot(v, n);
    let q = [v[0] - k * n[0], v[1] - k * n[1], v[2] - k * n[2]];
    let along = q[0] * lng.cos() + q[1] * lng.sin();
    if norm(q) > 1e-9 && along > 0.0 {
        let lat = q[2].atan2(along);
        if lat >= y1 && lat <= y2 {
            d = d.min(gc(p, (lng, lat)));
        }
    }
    d
}

fn wrap(d: f64) -> f64 {
    let t = std::f64::consts::TAU;
    let d = d.rem_euclid(t);
    if d > t / 2.0 { t - d } else { d }
}

/// True spherical distance from a point to a lng/lat box.
pub fn gc_pt_box(p: C, b: &B) -> f64 {
    if b.has(p) {
        return 0.0;
    }
    if p.0 >= b.x1 && p.0 <= b.x2 {
        return if p.1 < b.y1 { b.y1 - p.1 } else { p.1 - b.y2 };
    }
    gc_pt_meridian(p, b.x1, b.y1, b.y2).min(gc_pt_meridian(p, b.x2, b.y1, b.y2))
}

/// The crate's documented rect-rect measure on the sphere: zero on overlap, the latitude gap
/// when longitudes overlap, otherwise across the smaller longitude gap (either way round) at
/// the latitude of the overlap nearest to a pole, or between the facing corners.
pub fn gc_rect_rect(a: &B, b: &B) -> f64 {
    let ox = a.x2 >= b.x1 && b.x2 >= a.x1;
    let oy = a.y2 >= b.y1 && b.y2 >= a.y1;
    let gap = wrap(a.x2 - b.x1).min(wrap(a.x1 - b.x2));
    let ygap = (b.y1 - a.y2).max(a.y1 - b.y2);
    match (ox, oy) {
        (true, true) => 0.0,
        (true, false) => ygap,
        (false, true) => {
            let (lo, hi) = (a.y1.max(b.y1), a.y2.min(b.y2));
            let lat = lo.abs().max(hi.abs());
            gc((0.0, lat), (gap, lat))
        }
        (false, false) => {
            let (ya, yb) = if a.y2 < b.y1 { (a.y2, b.y1) } else { (a.y1, b.y2) };
            gc((0.0, ya), (gap, yb))
        }
    }
}

/// Reference spherical distance; None where the pair is not supported.
pub fn dist_s(a: &Shape, b: &Shape) -> Option<f64> {
    match (a, b) {
        (Pt(p), Pt(q)) => Some(gc(*p, *q)),
        (Pt(p), Rc(..)) => Some(gc_pt_box(*p, &b.bbox().unwrap())),
        (Pt(p), Pg(..)) => {
            if b.covers_pt(*p) {
                Some(0.0)
            } else {
                Some(b.segs().iter().map(|s| gc_pt_seg(*p, *s)).fold(f64::INFINITY, f64::min))
            }
        }
        (Pt(p), _) => Some(b.segs().iter().map(|s| gc_pt_seg(*p, *s)).fold(f64::INFINITY, f64::min)),
        (_, Pt(_)) => dist_s(b, a),
        (Rc(..), Rc(..)) => Some(gc_rect_rect(&a.bbox().unwrap(), &b.bbox().unwrap())),
        _ => None,
    }
}

// ---------------------------------------------------------------- boxes

#[derive(Debug, Clone, Copy, PartialEq)]
pub struct B {
    pub x1: f64,
    pub y1: f64,
    pub x2: f64,
    pub y2: f64,
}

impl B {
    pub fn new(x1: f64, y1: f64, x2: f64, y2: f64) -> B {
        B { x1, y1, x2, y2 }
    }
    pub fn rect(&self) -> Rect<f64> {
        Rect::new(co((self.x1, self.y1)), co((self.x2, self.y2)))
    }
    pub fn has(&self, p: C) -> bool {
        p.0 >= self.x1 && p.0 <= self.x2 && p.1 >= self.y1 && p.1 <= self.y2
    }
    pub fn encloses(&self, o: &B) -> bool {
        o.x1 >= self.x1 && o.x2 <= self.x2 && o.y1 >= self.y1 && o.y2 <= self.y2
    }
    pub fn shape(&self) -> Shape {
        Rc((self.x1, self.y1), (self.x2, self.y2))
    }
    /// Closed boxes share a point.
    pub fn touches(&self, o: &B) -> bool {
        self.x1 <= o.x2 && o.x1 <= self.x2 && self.y1 <= o.y2 && o.y1 <= self.y2
    }
    /// Overlap beyond mere edge contact, per axis.
    pub fn overlaps(&self, o: &B) -> bool {
        fn ax(a1: f64, a2: f64, b1: f64, b2: f64) -> bool {
            let lo = a1.max(b1);
            let hi = a2.min(b2);
            if a1 == a2 && b1 == b2 {
                a1 == b1
            } else if a1 == a2 {
                b1 < a1 && a1 < b2
            } else if b1 == b2 {
                a1 < b1 && b1 < a2
            } else {
                lo < hi
            }
        }
        ax(self.x1, self.x2, o.x1, o.x2) && ax(self.y1, self.y2, o.y1, o.y2)
    }
}

/// An affine frame keeping dyadic coordinates exact.
#[derive(Debug, Clone, Copy)]
pub struct Frame {
    pub ox: f64,
    pub oy: f64,
    pub sx: f64,
    pub sy: f64,
}

impl Frame {
    pub const ID: Frame = Frame { ox: 0.0, oy: 0.0, sx: 1.0, sy: 1.0 };
    pub fn new(ox: f64, oy: f64, sx: f64, sy: f64) -> Frame {
        Frame { ox, oy, sx, sy }
    }
    pub fn c(&self, c: C) -> C {
        // The identity keeps the sign of zero
        let go = |o: f64, s: f64, x: f64| if o == 0.0 && s == 1.0 { x } else { o + s * x };
        (go(self.ox, self.sx, c.0), go(self.oy, self.sy, c.1))
    }
    pub fn s(&self, s: &Shape) -> Shape {
        s.map(&|c| self.c(c))
    }
    pub fn b(&self, b: B) -> B {
        let (x1, y1) = self.c((b.x1, b.y1));
        let (x2, y2) = self.c((b.x2, b.y2));
        B { x1, y1, x2, y2 }
    }
}

pub fn pt(x: f64, y: f64) -> Shape {
    Pt((x, y))
}
pub fn rc(x1: f64, y1: f64, x2: f64, y2: f64) -> Shape {
    Rc((x1, y1), (x2, y2))
}
pub fn ln(x1: f64, y1: f64, x2: f64, y2: f64) -> Shape {
    Ln((x1, y1), (x2, y2))
}
