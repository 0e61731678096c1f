//! Reference model of the cell layout (boring on purpose).

use crate::shape::B;
use geo::GeoNum;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Kind {
    P,
    B,
}

/// A box in the tree's own number type.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Bx<T> {
    pub x1: T,
    pub y1: T,
    pub x2: T,
    pub y2: T,
}

impl From<B> for Bx<f64> {
    fn from(b: B) -> Self {
        Bx { x1: b.x1, y1: b.y1, x2: b.x2, y2: b.y2 }
    }
}

impl<T: GeoNum> Bx<T> {
    fn encloses(&self, o: &Bx<T>) -> bool {
        o.x1 >= self.x1 && o.x2 <= self.x2 && o.y1 >= self.y1 && o.y2 <= self.y2
    }
    fn touches(&self, o: &Bx<T>) -> bool {
        self.x1 <= o.x2 && o.x1 <= self.x2 && self.y1 <= o.y2 && o.y1 <= self.y2
    }
}

fn half<T: GeoNum>(lo: T, hi: T) -> T {
    lo + (hi - lo) / (T::one() + T::one())
}

#[derive(Debug)]
pub struct Cell<T> {
    pub b: Bx<T>,
    pub depth: usize,
    /// Indices of data held by this cell, in arrival order.
    pub own: Vec<usize>,
    pub kids: Vec<Cell<T>>,
}

#[derive(Debug)]
pub struct Model<T> {
    pub kind: Kind,
    pub md: usize,
    pub mc: usize,
    pub root: Cell<T>,
    /// Boxes of the accepted data, by index.
    pub boxes: Vec<Bx<T>>,
}

impl<T: GeoNum> Cell<T> {
    fn new(b: Bx<T>, depth: usize) -> Self {
        Cell { b, depth, own: vec![], kids: vec![] }
    }
    pub fn split(&mut self) {
        let (mx, my) = (half(self.b.x1, self.b.x2), half(self.b.y1, self.b.y2));
        let Bx { x1, y1, x2, y2 } = self.b;
        let d = self.depth + 1;
        self.kids = vec![
            Cell::new(Bx { x1, y1, x2: mx, y2: my }, d),
            Cell::new(Bx { x1: mx, y1, x2, y2: my }, d),
            Cell::new(Bx { x1: mx, y1: my, x2, y2 }, d),
            Cell::new(Bx { x1, y1: my, x2: mx, y2 }, d),
        ];
    }
    /// Sub-cell index for a box (its centre), lines belonging to the low side.
    fn side(&self, bx: &Bx<T>) -> usize {
        let (mx, my) = (half(self.b.x1, self.b.x2), half(self.b.y1, self.b.y2));
        let (cx, cy) = (half(bx.x1, bx.x2), half(bx.y1, bx.y2));
        match (cx <= mx, cy <= my) {
            (true, true) => 0,
            (false, true) => 1,
            (false, false) => 2,
            (true, false) => 3,
        }
    }
    fn put(&mut self, i: usize, kind: Kind, md: usize, mc: usize, boxes: &[Bx<T>]) {
        if self.kids.is_empty() {
            self.own.push(i);
            if self.own.len() > mc && self.depth < md {
                self.split();
                for j in std::mem::take(&mut self.own) {
                    self.put(j, kind, md, mc, boxes);
                }
            }
            return;
        }
        let s = self.side(&boxes[i]);
        if kind == Kind::B && !self.kids[s].b.encloses(&boxes[i]) {
            self.own.push(i);
        } else {
            self.kids[s].put(i, kind, md, mc, boxes);
        }
    }
    pub fn all(&self, out: &mut Vec<usize>) {
        out.extend(&self.own);
        for k in &self.kids {
            k.all(out);
        }
    }
    pub fn query(&self, kind: Kind, q: &Bx<T>, out: &mut Vec<usize>) {
        if kind == Kind::B || self.kids.is_empty() {
            out.extend(&self.own);
        }
        if self.kids.is_empty() {
            return;
        }
        let s = self.side(q);
        if kind == Kind::P || self.kids[s].b.encloses(q) {
            self.kids[s].query(kind, q, out);
        } else {
            for k in &self.kids {
                if k.b.touches(q) {
                    k.all(out);
                }
            }
        }
    }
    pub fn walk<'a>(&'a self, out: &mut Vec<&'a Cell<T>>) {
        out.push(self);
        for k in &self.kids {
            k.walk(out);
        }
    }
}

impl<T: GeoNum> Model<T> {
    pub fn new(kind: Kind, b: Bx<T>, md: usize, mc: usize) -> Self {
        Model { kind, md, mc, root: Cell::new(b, 0), boxes: vec![] }
    }
    pub fn fits(&self, bx: &Bx<T>) -> bool {
        self.root.b.encloses(bx)
    }
    /// Insert a datum that fits; it gets the next index.
    pub fn insert(&mut self, bx: Bx<T>) -> usize {
        let i = self.boxes.len();
        self.boxes.push(bx);
        self.root.put(i, self.kind, self.md, self.mc, &self.boxes);
        i
    }
    pub fn retrieve(&self, q: &Bx<T>) -> Vec<usize> {
        let mut out = vec![];
        if self.fits(q) {
            self.root.query(self.kind, q, &mut out);
        }
        out.sort_unstable();
        out
    }
    pub fn cells(&self) -> Vec<&Cell<T>> {
        let mut out = vec![];
        self.root.walk(&mut out);
        out
    }
}
