//! C17: queries are read-only and independent of one another, in every interleaving.

use super::*;
use crate::engine::H;
use crate::model::Kind;
use geo::{Coord, Point, Rect};
use std::cell::{Cell, RefCell};
use std::sync::{Condvar, Mutex};
use std::time::Duration;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};

/// Something that runs on a shared tree, step by step.
#[derive(Clone, Debug, PartialEq)]
enum Act {
    Iter,
    Retrieve(Shape),
    Sorted(usize),
    /// A list of one-shot queries, one per step.
    Shots(Vec<Shot>),
}

#[derive(Clone, Debug, PartialEq)]
enum Shot {
    Find(usize),
    FindR(usize, f64),
    Knn(usize, usize),
    KnnR(usize, usize, f64),
    Retrieve(Shape),
    IterAll,
    SortedAll(usize),
    SortedFew(usize, usize),
    IterFew(usize),
    Show,
    Size,
}

/// What one step shows.
#[derive(Clone, Debug, PartialEq)]
enum Ans {
    End,
    Id(usize),
    Hit(usize, f64),
    One(Result<(usize, f64), Error>),
    Many(Result<Vec<(usize, f64)>, Error>),
    Ids(Vec<usize>),
    Text(String),
}

const CAP: usize = 64;

fn shot(t: &AnyTree<f64>, cg: &[Geometry<f64>], s: &Shot) -> Ans {
    match s {
        Shot::Find(c) => Ans::One(t.find(&cg[*c])),
        Shot::FindR(c, r) => Ans::One(t.find_r(&cg[*c], *r)),
        Shot::Knn(c, k) => Ans::Many(t.knn(&cg[*c], *k)),
        Shot::KnnR(c, k, r) => Ans::Many(t.knn_r(&cg[*c], *k, *r)),
        Shot::Retrieve(s) => Ans::Ids(t.retrieve(&q(s), CAP)),
        Shot::IterAll => Ans::Ids(t.ids(CAP)),
        Shot::SortedAll(c) => Ans::Many(Ok(t.sorted(&cg[*c]).take(CAP).collect())),
        Shot::SortedFew(c, n) => Ans::Many(Ok(t.sorted(&cg[*c]).take(*n).collect())),
        Shot::IterFew(n) => Ans::Ids(t.iter().take(*n).collect()),
        Shot::Show => Ans::Text(t.show()),
        Shot::Size => Ans::Ids(vec![t.size()]),
    }
}

enum Live<'a> {
    I(Box<dyn Iterator<Item = usize> + 'a>),
    S(Box<dyn Iterator<Item = (usize, f64)> + 'a>),
    Shots(&'a [Shot], usize),
}

impl Act {
    fn start<'a>(&'a self, t: &'a AnyTree<f64>, cg: &'a [Geometry<f64>]) -> Live<'a> {
        match self {
            Act::Iter => Live::I(t.iter()),
            Act::Retrieve(s) => Live::I(t.retrieve_iter(&q(s))),
            Act::Sorted(c) => Live::S(t.sorted(&cg[*c])),
            Act::Shots(v) => Live::Shots(v, 0),
        }
    }
    /// The answers of each step when run alone, on a fresh tree.
    fn alone(&self, t: &AnyTree<f64>, cg: &[Geometry<f64>], steps: usize) -> Vec<Ans> {
        let mut l = self.start(t, cg);
        (0..steps).map(|_| l.step(t, cg)).collect()
    }
}

impl Live<'_> {
    fn step(&mut self, t: &AnyTree<f64>, cg: &[Geometry<f64>]) -> Ans {
        match self {
            Live::I(i) => i.next().map(Ans::Id).unwrap_or(Ans::End),
            Live::S(i) => i.next().map(|h| Ans::Hit(h.0, h.1)).unwrap_or(Ans::End),
            Live::Shots(v, at) => {
                *at += 1;
                v.get(*at - 1).map(|s| shot(t, cg, s)).unwrap_or(Ans::End)
            }
        }
    }
}

/// All sequences with the given number of steps of each actor.
fn schedules(steps: &[usize]) -> Vec<Vec<u8>> {
    fn go(left: &mut Vec<usize>, cur: &mut Vec<u8>, out: &mut Vec<Vec<u8>>) {
        if left.iter().all(|x| *x == 0) {
            out.push(cur.clone());
            return;
        }
        for i in 0..left.len() {
            if left[i] > 0 {
                left[i] -= 1;
                cur.push(i as u8);
                go(left, cur, out);
                cur.pop();
                left[i] += 1;
            }
        }
    }
    let mut out = vec![];
    go(&mut steps.to_vec(), &mut vec![], &mut out);
    out
}

struct Setup {
    kind: Kind,
    calc: CalcMethod,
    lim: (u8, usize),
    data: Vec<Shape>,
    bounds: B,
}

impl Setup {
    fn build(&self) -> AnyTree<f64> {
        let mut t = mk(&self.cfg());
        for (i, s) in self.data.iter().enumerate() {
            t.insert(i, s.geom()).ok();
        }
        t
    }
    fn cfg(&self) -> Cfg {
        Cfg { kind: self.kind, b: self.bounds, calc: self.calc, lim: Some(self.lim) }
    }
}

const GLOBE: Frame = Frame { ox: -2.0, oy: -1.0, sx: 0.5, sy: 0.25 };

fn setups(many: bool) -> Vec<Setup> {
    let pts = vec![pt(1.0, 1.0), pt(7.0, 1.0), pt(7.0, 7.0), pt(1.5, 6.0), pt(1.0, 1.0)];
    let shp = vec![rc(1.0, 1.0, 2.0, 2.0), rc(3.0, 3.0, 5.0, 5.0), pt(7.0, 7.0), pt(0.5, 7.0), pt(7.0, 0.5)];
    let m = |kind, f: Frame, calc, lim, d: &[Shape]| Setup { kind, calc, lim, data: d.iter().map(|s| f.s(s)).collect(), bounds: f.b(UNIT) };
    let e = CalcMethod::Euclidean;
    let mut v = vec![
        m(Kind::P, Frame::ID, e, (2, 1), &pts[..4]),
        m(Kind::B, Frame::ID, e, (2, 1), &shp[..4]),
        m(Kind::P, Frame::ID, e, (3, 1), &pts),
        m(Kind::B, GLOBE, CalcMethod::Spherical, (2, 1), &shp[..4]),
    ];
    if many {
        v.extend([
            m(Kind::B, Frame::ID, e, (3, 0), &shp),
            m(Kind::P, Frame::ID, e, (0, 1), &pts[..3]),
            m(Kind::B, Frame::ID, e, (2, 1), &pts[..4]),
            m(Kind::P, GLOBE, CalcMethod::Spherical, (2, 1), &pts[..4]),
            m(Kind::P, Frame::ID, e, (2, 1), &[]),
        ]);
    }
    v
}

fn acts(s: &Setup) -> (Vec<Geometry<f64>>, Vec<Act>) {
    let f = if matches!(s.calc, CalcMethod::Spherical) { GLOBE } else { Frame::ID };
    let cs = [pt(4.0, 4.0), pt(0.0, 8.0), rc(6.0, 0.0, 8.0, 2.0)].map(|c| f.s(&c));
    // Two lines with the same box
    let cs = [&cs[..], &[f.s(&ln(0.0, 0.0, 8.0, 8.0)), f.s(&ln(0.0, 8.0, 8.0, 0.0))]].concat();
    let cg: Vec<Geometry<f64>> = cs.iter().map(|c| c.geom()).collect();
    let r = |a: f64| a * f.sx;
    let third = if matches!(s.calc, CalcMethod::Spherical) { 1 } else { 2 };
    let mut v = vec![Act::Iter, Act::Sorted(0), Act::Retrieve(f.s(&pt(1.0, 1.0)))];
    if s.kind == Kind::B {
        v.push(Act::Retrieve(f.s(&rc(1.0, 1.0, 6.0, 5.0))));
    }
    v.push(Act::Sorted(third));
    v.push(Act::Shots(vec![Shot::Find(0), Shot::KnnR(1, 2, r(6.0)), Shot::Retrieve(f.s(&pt(1.0, 1.0))), Shot::Show, Shot::SortedFew(0, 1)]));
    v.push(Act::Shots(vec![Shot::FindR(third, r(1.0)), Shot::IterFew(2), Shot::Knn(0, 2), Shot::SortedAll(1), Shot::Find(1), Shot::Size]));
    if third == 2 {
        v.push(Act::Shots(vec![Shot::Find(3), Shot::Find(4), Shot::Find(2), Shot::Knn(4, 1), Shot::SortedFew(3, 1), Shot::FindR(4, 2.0)]));
    }
    (cg, v)
}

fn judge_schedule(pre: &str, acts: &[&Act], got: &[(usize, Ans)], alone: &[Vec<Ans>], sched: &[u8]) -> Result<(), String> {
    let mut at = vec![0; acts.len()];
    for (i, (a, ans)) in got.iter().enumerate() {
        let want = &alone[*a][at[*a]];
        at[*a] += 1;
        ensure!(ans == want, "{pre}under schedule {sched:?}, step {i} (of actor {a}, {:?}) gives {ans:?}; run alone it gives {want:?}", acts[*a]);
    }
    Ok(())
}

/// Two or three actors over one tree, under every schedule of their steps.
fn interleave(name: &str, n: usize, steps: usize, many: bool, per_actor_ends: bool) -> Space {
    let mut jobs = vec![];
    for (si, s) in setups(many).iter().enumerate() {
        let (_, a) = acts(s);
        let m = a.len();
        let mut idx = vec![0; n];
        loop {
            if idx.windows(2).all(|w| w[0] <= w[1]) {
                jobs.push((si, idx.clone()));
            }
            let mut i = 0;
            while i < n {
                idx[i] += 1;
                if idx[i] < m {
                    break;
                }
                idx[i] = 0;
                i += 1;
            }
            if i == n {
                break;
            }
        }
    }
    let what = format!(
        "every schedule of the steps of every {n} of iteration, retrievals, sorted searches and lists of one-shot queries on one tree{}, {} trees",
        if per_actor_ends { ", run to their ends" } else { ", abandoned after every number of steps" },
        setups(many).len()
    );
    Space::new(name, what, jobs.len(), move |ji, sink| {
        let (si, idx) = &jobs[ji];
        let s = &setups(many)[*si];
        let (cg, av) = acts(s);
        let chosen: Vec<&Act> = idx.iter().map(|i| &av[*i]).collect();
        let full: Vec<usize> = chosen
            .iter()
            .map(|a| match a {
                Act::Shots(v) => v.len().min(steps),
                _ if per_actor_ends => {
                    let t = s.build();
                    let l = a.alone(&t, &cg, 16);
                    (l.iter().position(|x| *x == Ans::End).unwrap_or(15) + 1).min(steps)
                }
                _ => steps,
            })
            .collect();
        // All combinations of abandonment points, or just the ends
        let mut ends = vec![vec![]];
        for f in &full {
            let r: Vec<usize> = if per_actor_ends { vec![*f] } else { (0..=*f).collect() };
            ends = ends.into_iter().flat_map(|p: Vec<usize>| r.iter().map(move |x| [p.clone(), vec![*x]].concat())).collect();
        }
        let alone: Vec<Vec<Ans>> = chosen.iter().map(|a| a.alone(&s.build(), &cg, steps.max(16))).collect();
        let after: Vec<Ans> = [Shot::Show, Shot::IterAll, Shot::Find(0), Shot::Knn(1, 3)].iter().map(|x| shot(&s.build(), &cg, x)).collect();
        let t = s.build();
        for e in ends {
            for sched in schedules(&e) {
                sink.at(|| format!("{} with {:?}; actors {chosen:?}; schedule {sched:?}", s.cfg().code(), s.data));
                let mut live: Vec<Live> = chosen.iter().map(|a| a.start(&t, &cg)).collect();
                let mut got = vec![];
                for a in &sched {
                    let ans = live[*a as usize].step(&t, &cg);
                    got.push((*a as usize, ans));
                }
                drop(live);
                sink.transitions += sched.len() as u64;
                sink.evals += sched.len() as u64;
                sink.traces += 1;
                sink.nontrivial += (sched.windows(2).filter(|w| w[0] != w[1]).count() > 1) as u64;
                let mut h = H::new();
                h.add(ji as u64);
                for a in &sched {
                    h.add(*a as u64 + 1);
                    sink.states.insert(h.0);
                }
                let r = judge_schedule("", &chosen, &got, &alone, &sched);
                sink.judge(r, || (format!("{} with {:?}; actors {chosen:?}", s.cfg().code(), s.data), String::new()))?;
            }
            let now: Vec<Ans> = [Shot::Show, Shot::IterAll, Shot::Find(0), Shot::Knn(1, 3)].iter().map(|x| shot(&t, &cg, x)).collect();
            let r = if now == after { Ok(()) } else { Err(format!("afterwards the tree answers {now:?} instead of {after:?}")) };
            sink.judge(r, || (format!("{} with {:?}; actors {chosen:?} abandoned after {e:?} steps", s.cfg().code(), s.data), String::new()))?;
        }
        sink.out(match n {
            2 => "pairs",
            _ => "triples",
        });
        Ok(())
    })
}

/// Actors on different trees, interleaved: nothing leaks from one tree to another.
fn across(name: &str, steps: usize, many: bool) -> Space {
    let ns = setups(many).len();
    let jobs: Vec<(usize, usize)> = (0..ns).flat_map(|a| (0..ns).map(move |b| (a, b))).collect();
    Space::new(name, format!("every schedule of one actor on each of two trees, {ns} x {ns} trees, all pairs of actors"), jobs.len(), move |ji, sink| {
        let all = setups(many);
        let (s0, s1) = (&all[jobs[ji].0], &all[jobs[ji].1]);
        let ((c0, a0), (c1, a1)) = (acts(s0), acts(s1));
        let (t0, t1) = (s0.build(), s1.build());
        for x in &a0 {
            for y in &a1 {
                let alone = vec![x.alone(&s0.build(), &c0, steps), y.alone(&s1.build(), &c1, steps)];
                for sched in schedules(&[steps, steps]) {
                    sink.at(|| format!("trees {} with {:?} and {} with {:?}; actors {x:?}, {y:?}; schedule {sched:?}", s0.cfg().code(), s0.data, s1.cfg().code(), s1.data));
                    let mut l = [x.start(&t0, &c0), y.start(&t1, &c1)];
                    let got: Vec<(usize, Ans)> = sched.iter().map(|a| (*a as usize, if *a == 0 { l[0].step(&t0, &c0) } else { l[1].step(&t1, &c1) })).collect();
                    sink.transitions += sched.len() as u64;
                    sink.evals += sched.len() as u64;
                    sink.traces += 1;
                    sink.nontrivial += 1;
                    let mut h = H::new();
                    h.add(ji as u64);
                    for a in &sched {
                        h.add(*a as u64 + 1);
                        sink.states.insert(h.0);
                    }
                    let r = judge_schedule("", &[x, y], &got, &alone, &sched);
                    sink.judge(r, || (format!("trees {} with {:?} and {} with {:?}", s0.cfg().code(), s0.data, s1.cfg().code(), s1.data), String::new()))?;
                }
            }
        }
        sink.out("pairs of trees");
        Ok(())
    })
}

/// The same schedules with every actor on its own thread, driven in lock-step.
fn threads(name: &str, n: usize, steps: usize, many: bool) -> Space {
    let mut jobs = vec![];
    for (si, s) in setups(many).iter().enumerate() {
        let m = acts(s).1.len();
        for a in 0..m {
            for b in a..m {
                if n == 2 {
                    jobs.push((si, vec![a, b]));
                } else {
                    for c in b..m {
                        if (a + b + c) % 3 == 0 {
                            jobs.push((si, vec![a, b, c]));
                        }
                    }
                }
            }
        }
    }
    Space::new(name, format!("every schedule of {steps} steps of each of {n} actors, each actor on a thread of its own, {} trees", setups(many).len()), jobs.len(), move |ji, sink| {
        let (si, idx) = &jobs[ji];
        let s = &setups(many)[*si];
        let (cg, av) = acts(s);
        let chosen: Vec<&Act> = idx.iter().map(|i| &av[*i]).collect();
        let alone: Vec<Vec<Ans>> = chosen.iter().map(|a| a.alone(&s.build(), &cg, steps)).collect();
        let t = Force(s.build());
        let scheds = schedules(&vec![steps; n]);
        // One set of threads runs all schedules; a shared ticket says whose turn it is
        let total: usize = scheds.iter().map(|s| s.len()).sum();
        let turn = AtomicUsize::new(0);
        let flat: Vec<(usize, u8, bool, bool)> = scheds
            .iter()
            .enumerate()
            .flat_map(|(k, s)| {
                let mut seen = vec![0; n];
                s.iter()
                    .map(|a| {
                        seen[*a as usize] += 1;
                        (k, *a, seen[*a as usize] == 1, seen[*a as usize] == steps)
                    })
                    .collect::<Vec<_>>()
            })
            .collect();
        let out: Mutex<Vec<(usize, Ans)>> = Mutex::new(vec![]);
        let failed = AtomicUsize::new(0);
        let (tr, cr, fl, ch) = (&t, &cg, &flat, &chosen);
        std::thread::scope(|sc| {
            for me in 0..n {
                let (turn, out, failed) = (&turn, &out, &failed);
                sc.spawn(move || {
                    let t: &Force<AnyTree<f64>> = tr;
                    let mut live: Option<Live> = None;
                    let mut mine = 0;
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                        while let Some(k) = (mine..total).find(|k| fl[*k].1 as usize == me) {
                            let mut spins = 0;
                            while turn.load(SeqCst) != k {
                                if failed.load(SeqCst) > 0 {
                                    return;
                                }
                                spins += 1;
                                if spins > 50 {
                                    std::thread::yield_now();
                                } else {
                                    std::hint::spin_loop();
                                }
                            }
                            if fl[k].2 {
                                live = Some(ch[me].start(&t.0, cr));
                            }
                            let ans = live.as_mut().unwrap().step(&t.0, cr);
                            if fl[k].3 {
                                live = None;
                            }
                            out.lock().unwrap().push((me, ans));
                            mine = k + 1;
                            turn.store(k + 1, SeqCst);
                        }
                    }));
                    if r.is_err() {
                        failed.fetch_add(1, SeqCst);
                    }
                });
            }
        });
        let got = out.into_inner().unwrap();
        sink.transitions += got.len() as u64;
        sink.evals += got.len() as u64;
        sink.traces += scheds.len() as u64;
        sink.nontrivial += scheds.len() as u64;
        let mut h = H::new();
        h.add(ji as u64);
        sink.states.insert(h.0);
        let describe = || (format!("{} with {:?}; threads run {chosen:?}", s.cfg().code(), s.data), String::new());
        if failed.load(SeqCst) > 0 || got.len() != total {
            return sink.judge(Err(format!("a thread panicked after {} steps", got.len())), describe);
        }
        let mut at = 0;
        for sched in &scheds {
            let r = judge_schedule("on threads, ", &chosen, &got[at..at + sched.len()], &alone, sched);
            at += sched.len();
            sink.judge(r, describe)?;
        }
        sink.out(if n == 2 { "two threads" } else { "three threads" });
        Ok(())
    })
}

/// Which of two threads may run, and how far.
struct Gate {
    /// (whose turn, finished, nobody waits any more)
    st: Mutex<(usize, [bool; 2], bool)>,
    cv: Condvar,
    /// How many looks at data each thread makes before it hands over.
    upto: [usize; 2],
}

impl Gate {
    fn wait(&self, me: usize) {
        let st = self.st.lock().unwrap();
        // A search that holds a lock of its own may have to go on before the other one can
        let (mut st, late) = self.cv.wait_timeout_while(st, Duration::from_secs(4), |s| s.0 != me && !s.1[1 - me] && !s.2).unwrap();
        if late.timed_out() {
            st.2 = true;
            self.cv.notify_all();
        }
    }
    fn pass(&self, me: usize, done: bool) {
        let mut st = self.st.lock().unwrap();
        st.0 = 1 - me;
        st.1[me] |= done;
        self.cv.notify_all();
    }
    /// Run `f` as thread `me`.
    fn run<R>(&self, me: usize, f: impl FnOnce() -> R) -> R {
        struct End<'a>(&'a Gate, usize);
        impl Drop for End<'_> {
            fn drop(&mut self) {
                self.0.pass(self.1, true);
            }
        }
        self.wait(me);
        let _end = End(self, me);
        let looks = Cell::new(0);
        let watch = || {
            if looks.get() == self.upto[me] {
                self.pass(me, false);
                self.wait(me);
            }
            looks.set(looks.get() + 1);
        };
        watched(&watch, f)
    }
}

/// What runs inside another search: a query of the same tree, of another one, or the making of one.
#[derive(Clone, Debug, PartialEq)]
enum Job {
    Ask(Shot),
    Build,
}

/// Two searches, switched between in the middle: every pair of places, at the granularity of a
/// search looking at a datum.
fn inside(name: &str, many: bool) -> Space {
    let ns = setups(many).len();
    let jobs_of = |s: &Setup| -> Vec<Job> {
        let f = if matches!(s.calc, CalcMethod::Spherical) { GLOBE } else { Frame::ID };
        let r = |a: f64| a * f.sx.min(f.sy);
        let mut v = vec![Shot::Find(0), Shot::FindR(1, r(3.0)), Shot::Knn(0, 2), Shot::KnnR(1, 9, r(6.0)), Shot::SortedAll(0), Shot::SortedFew(1, 1), Shot::Retrieve(f.s(&pt(1.0, 1.0)))];
        if many {
            v.extend([Shot::Find(1), Shot::Knn(1, 9), Shot::KnnR(0, 9, r(2.0)), Shot::SortedAll(1), Shot::FindR(0, r(40.0))]);
            if s.kind == Kind::B {
                v.push(Shot::Retrieve(f.s(&rc(1.0, 1.0, 6.0, 5.0))));
            }
        }
        v.into_iter().map(Job::Ask).collect()
    };
    let all = setups(many);
    let mut jobs = vec![];
    for si in 0..ns {
        let a = jobs_of(&all[si]);
        for x in &a {
            for other in [si, (si + 1) % ns] {
                jobs.push((si, other, x.clone(), jobs_of(&all[other])));
            }
        }
    }
    let what = format!("every pair of searches on one tree or two, {ns} trees: one stopped at every look at a datum, the other run up to every look, then the first to its end and the second to its end, each on a thread; and the second run whole inside the first on one thread");
    Space::new(name, what, jobs.len(), move |ji, sink| {
        let all = setups(many);
        let (si, oi, x, ys) = &jobs[ji];
        let (s, o) = (&all[*si], &all[*oi]);
        let (cg, oc) = (acts(s).0, acts(o).0);
        let (t, u) = (Force(s.build()), Force(o.build()));
        let (t, u): (&Force<AnyTree<f64>>, &Force<AnyTree<f64>>) = (&t, if si == oi { &t } else { &u });
        let ask = |s: &Setup, t: &Force<AnyTree<f64>>, cg: &[Geometry<f64>], j: &Job| match j {
            Job::Ask(q) => shot(&t.0, cg, q),
            Job::Build => Ans::Text(s.build().show()),
        };
        let count = |s: &Setup, t: &Force<AnyTree<f64>>, cg: &[Geometry<f64>], j: &Job| {
            let n = Cell::new(0);
            watched(&|| n.set(n.get() + 1), || ask(s, t, cg, j));
            n.get()
        };
        let mut ys = ys.clone();
        ys.push(Job::Build);
        let fresh = |s: &Setup, cg: &[Geometry<f64>], j: &Job| ask(s, &Force(s.build()), cg, j);
        let want_x = fresh(s, &cg, x);
        let nx = count(s, t, &cg, x);
        for y in &ys {
            let want_y = fresh(o, &oc, y);
            let ny = count(o, u, &oc, y);
            let code = |i: usize, j: usize, how: &str| (format!("{x:?} on {} with {:?}; {y:?} on {} with {:?}; {how}, the first stops before look {i}, the second before look {j}", s.cfg().code(), s.data, o.cfg().code(), o.data), String::new());
            let mut stuck = false;
            for i in 0..=nx {
                for j in 0..=ny {
                    sink.at(|| code(i, j, "on two threads").0);
                    let gate = Gate { st: Mutex::new((0, [false; 2], stuck)), cv: Condvar::new(), upto: [i, j] };
                    let (got_x, got_y) = std::thread::scope(|sc| {
                        let (gate, oc, ask) = (&gate, &oc, &ask);
                        let h = sc.spawn(move || catch(|| gate.run(1, || ask(o, u, oc, y))));
                        let a = catch(|| gate.run(0, || ask(s, t, &cg, x)));
                        (a, h.join().unwrap_or_else(|_| Err("panicked".into())))
                    });
                    stuck |= gate.st.lock().unwrap().2;
                    sink.traces += 1;
                    sink.transitions += 4;
                    sink.evals += 2;
                    sink.nontrivial += (i > 0 && i < nx) as u64;
                    let mut h = H::new();
                    [ji as u64, i as u64, j as u64, sink.traces].iter().for_each(|v| h.add(*v));
                    sink.states.insert(h.0);
                    let r = if got_x.as_ref() != Ok(&want_x) {
                        Err(format!("the first gives {got_x:?}; run alone it gives {want_x:?}"))
                    } else if got_y.as_ref() != Ok(&want_y) {
                        Err(format!("the second gives {got_y:?}; run alone it gives {want_y:?}"))
                    } else {
                        Ok(())
                    };
                    sink.judge(r, || code(i, j, "on two threads"))?;
                }
                // The second one whole, inside the first
                sink.at(|| code(i, ny, "on one thread").0);
                let at = Cell::new(0);
                let got_y = RefCell::new(None);
                let watch = || {
                    at.set(at.get() + 1);
                    if at.get() == i + 1 {
                        let a = watched(&|| (), || catch(|| ask(o, u, &oc, y)));
                        *got_y.borrow_mut() = Some(a);
                    }
                };
                let got_x = catch(|| watched(&watch, || ask(s, t, &cg, x)));
                sink.traces += 1;
                sink.transitions += 2;
                sink.evals += 2;
                let r = if got_x.as_ref() != Ok(&want_x) {
                    Err(format!("the first gives {got_x:?}; run alone it gives {want_x:?}"))
                } else if got_y.borrow().as_ref().is_some_and(|a| a.as_ref() != Ok(&want_y)) {
                    Err(format!("the second gives {got_y:?}; run alone it gives {want_y:?}"))
                } else {
                    Ok(())
                };
                sink.judge(r, || code(i, ny, "on one thread"))?;
            }
        }
        sink.out(if si == oi { "one tree" } else { "two trees" });
        Ok(())
    })
}

fn catch<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|_| "panicked".to_string())
}

/// Searches broken off in the middle by a panic in the caller's own code (a datum's conversion):
/// at every look at a datum; afterwards every search answers as on a fresh tree.
fn broken_off(name: &str, many: bool) -> Space {
    let ns = setups(many).len();
    let what = format!("every search of {ns} trees broken off by a panic of the caller's own code at every look at a datum; then every search of that tree and of another");
    Space::new(name, what, ns, move |si, sink| {
        let all = setups(many);
        let s = &all[si];
        let o = &all[(si + 1) % ns];
        let (cg, oc) = (acts(s).0, acts(o).0);
        let shots = |s: &Setup| -> Vec<Shot> {
            let f = if matches!(s.calc, CalcMethod::Spherical) { GLOBE } else { Frame::ID };
            let r = |a: f64| a * f.sx.min(f.sy);
            vec![Shot::Find(0), Shot::FindR(1, r(3.0)), Shot::Knn(0, 2), Shot::KnnR(1, 9, r(6.0)), Shot::SortedAll(0), Shot::SortedFew(1, 1), Shot::Retrieve(f.s(&pt(1.0, 1.0))), Shot::IterAll, Shot::Show]
        };
        let t = s.build();
        let (xs, ys) = (shots(s), shots(o));
        let want: Vec<Ans> = xs.iter().map(|x| shot(&s.build(), &cg, x)).collect();
        let want_o: Vec<Ans> = ys.iter().map(|y| shot(&o.build(), &oc, y)).collect();
        for x in &xs {
            let n = Cell::new(0);
            watched(&|| n.set(n.get() + 1), || shot(&t, &cg, x));
            for i in 0..n.get() {
                let code = |y: &Shot| (format!("{x:?} on {} with {:?} broken off at look {i}; then {y:?}", s.cfg().code(), s.data), String::new());
                // Each search right after one that was broken off, on its tree and on another
                for (y, want, own) in xs.iter().zip(&want).map(|(y, w)| (y, w, true)).chain(ys.iter().zip(&want_o).map(|(y, w)| (y, w, false))) {
                    sink.at(|| code(y).0);
                    let at = Cell::new(0);
                    let watch = || {
                        at.set(at.get() + 1);
                        if at.get() == i + 1 {
                            std::panic::resume_unwind(Box::new("enough"));
                        }
                    };
                    let cut = catch(|| watched(&watch, || shot(&t, &cg, x))).is_err();
                    let got = catch(|| if own { shot(&t, &cg, y) } else { shot(&o.build(), &oc, y) });
                    sink.traces += 1;
                    sink.transitions += 2;
                    sink.evals += 1;
                    sink.nontrivial += cut as u64;
                    let mut h = H::new();
                    [si as u64, i as u64, sink.traces].iter().for_each(|v| h.add(*v));
                    sink.states.insert(h.0);
                    let r = if got.as_ref() == Ok(want) { Ok(()) } else { Err(format!("gives {got:?}; on a fresh tree it gives {want:?}")) };
                    sink.judge(r, || code(y))?;
                }
            }
        }
        sink.out("broken off");
        Ok(())
    })
}

/// One search, many of another one, then the first again, with every number of searches between
/// them up to 260 and around the powers of two that counters wrap at.
fn marathon(tier: Tier) -> Space {
    let mut gaps: Vec<usize> = (0..=260).collect();
    for e in [9, 10, 12, 15, 16].into_iter().chain(if tier == Tier::Quick { vec![] } else { vec![17, 20] }) {
        gaps.extend((1usize << e) - 3..=(1 << e) + 1);
    }
    let mut jobs = vec![];
    for kind in [Kind::P, Kind::B] {
        for spherical in [false, true] {
            for a in 0..5 {
                for b in 0..5 {
                    jobs.push((kind, spherical, a, b));
                }
            }
        }
    }
    let what = format!("4 trees, each of 5 queries of one corner repeated after 0..={} of each of 5 queries of another ({} gaps): the answers stay the same", gaps[gaps.len() - 1], gaps.len());
    Space::new("marathon", what, jobs.len(), move |ji, sink| {
        let (kind, spherical, a, b) = jobs[ji];
        let (f, calc) = if spherical { (GLOBE, CalcMethod::Spherical) } else { (Frame::ID, CalcMethod::Euclidean) };
        let cfg = Cfg { kind, b: f.b(UNIT), calc, lim: Some((3, 1)) };
        let mut t = mk(&cfg);
        let mut data = vec![pt(1.0, 1.0), pt(7.0, 7.0), pt(1.5, 7.0), pt(7.0, 0.5), pt(0.5, 1.5)];
        if kind == Kind::B {
            data.push(rc(3.0, 3.0, 5.0, 5.0));
        }
        for (i, s) in data.iter().enumerate() {
            t.insert(i, f.s(s).geom()).ok();
        }
        let cg = [f.s(&pt(1.0, 1.25)).geom(), f.s(&pt(7.0, 6.75)).geom()];
        let r = 0.5 * f.sy;
        let shots = |c: usize| [Shot::Find(c), Shot::KnnR(c, 2, r), Shot::SortedFew(c, 1), Shot::Retrieve(f.s(&data[c])), Shot::FindR(c, r)];
        let (x, y) = (shots(0)[a].clone(), shots(1)[b].clone());
        let (want_x, want_y) = (shot(&t, &cg, &x), shot(&t, &cg, &y));
        for g in &gaps {
            let code = || (format!("{} with {data:?}: {x:?}, then {g} times {y:?}, then {x:?}", cfg.code()), String::new());
            sink.at(|| code().0);
            let mut res = Ok(());
            for i in 0..*g {
                let got = shot(&t, &cg, &y);
                if got != want_y && res.is_ok() {
                    res = Err(format!("time {i} of {y:?} gives {got:?}; before it gave {want_y:?}"));
                }
            }
            let got = shot(&t, &cg, &x);
            if got != want_x && res.is_ok() {
                res = Err(format!("gives {got:?}; before it gave {want_x:?}"));
            }
            sink.evals += *g as u64 + 1;
            sink.transitions += *g as u64 + 1;
            sink.traces += 1;
            sink.nontrivial += 1;
            let mut h = H::new();
            [ji as u64, *g as u64].iter().for_each(|v| h.add(*v));
            sink.states.insert(h.0);
            sink.judge(res, code)?;
        }
        sink.out("repeated");
        Ok(())
    })
}

/// All sequences of inserts and queries up to a length: every answer equals that of a fresh tree
/// holding the same data which was never queried.
fn mixed(name: &str, kind: Kind, spherical: bool, len: usize, wide: bool) -> Space {
    let f = if spherical { GLOBE } else { Frame::ID };
    let calc = if spherical { CalcMethod::Spherical } else { CalcMethod::Euclidean };
    let data: Vec<Shape> = match kind {
        Kind::P => vec![pt(1.0, 1.0), pt(6.0, 5.0), pt(4.5, 4.0), pt(1.0, 1.0)],
        Kind::B => vec![rc(1.0, 1.0, 2.0, 2.0), pt(6.0, 5.0), rc(3.0, 3.0, 5.0, 5.0), rc(1.0, 1.0, 2.0, 2.0)],
    }
    .iter()
    .map(|s| f.s(s))
    .collect();
    // The last ones share a box
    let cs: Vec<Shape> = [pt(4.0, 4.0), pt(0.0, 0.5), pt(9.0, 4.0), ln(0.0, 0.0, 8.0, 6.0), ln(0.0, 6.0, 8.0, 0.0)].iter().map(|s| f.s(s)).collect();
    let cg: Vec<Geometry<f64>> = cs.iter().map(|c| c.geom()).collect();
    let r = |a: f64| a * f.sx.min(f.sy);
    let mut shots = vec![
        Shot::Find(0),
        Shot::FindR(0, r(0.75)),
        Shot::Knn(0, 1),
        Shot::Knn(0, 3),
        Shot::SortedAll(0),
        Shot::IterAll,
        Shot::Retrieve(f.s(&pt(1.0, 1.0))),
        Shot::Find(1),
        Shot::SortedFew(1, 1),
    ];
    if wide {
        shots.extend([Shot::KnnR(0, 9, r(0.75)), Shot::KnnR(1, 2, r(5.0)), Shot::Find(2), Shot::Show, Shot::Size, Shot::IterFew(1), Shot::Retrieve(f.s(&pt(6.0, 5.0))), Shot::FindR(1, r(0.25)), Shot::Knn(1, 0)]);
    }
    if !spherical {
        shots.extend([Shot::Find(3), Shot::Find(4)]);
    }
    let nd = if wide { 3 } else { 4 };
    let ns = nd + shots.len();
    let lims = [(2u8, 1usize), (1, 1), (0, 1)];
    let tail = ns.pow(2);
    let cfgs = lims.len();
    let what = format!("every sequence of {len} operations out of {nd} inserts and {} queries, in {cfgs} settings; every answer compared with that of a tree never queried before", shots.len());
    Space::new(name, what, cfgs * tail, move |ch, sink| {
        let cfg = Cfg { kind, b: f.b(UNIT), calc, lim: Some(lims[ch / tail]) };
        let mut head = ch % tail;
        let mut seq = vec![0; len];
        for e in seq.iter_mut().take(2) {
            *e = head % ns;
            head /= ns;
        }
        let mut memo: std::collections::HashMap<(Vec<usize>, usize), Ans> = Default::default();
        for mut i in 0..ns.pow(len as u32 - 2) {
            for e in seq.iter_mut().skip(2) {
                *e = i % ns;
                i /= ns;
            }
            let mut t = mk(&cfg);
            let mut hist = vec![];
            sink.traces += 1;
            let mut r = Ok(());
            let show = |seq: &[usize]| -> Vec<String> { seq.iter().map(|o| if *o < nd { format!("insert {:?}", data[*o]) } else { format!("{:?}", shots[*o - nd]) }).collect() };
            sink.at(|| format!("{}: {:?}", cfg.code(), show(&seq)));
            for (step, o) in seq.iter().enumerate() {
                sink.transitions += 1;
                if *o < nd {
                    t.insert(hist.len(), data[*o].geom()).ok();
                    hist.push(*o);
                    continue;
                }
                let got = shot(&t, &cg, &shots[*o - nd]);
                sink.evals += 1;
                let want = memo.entry((hist.clone(), *o)).or_insert_with(|| {
                    let mut u = mk(&cfg);
                    for (i, d) in hist.iter().enumerate() {
                        u.insert(i, data[*d].geom()).ok();
                    }
                    shot(&u, &cg, &shots[*o - nd])
                });
                if got != *want {
                    r = Err(format!("operation {step} {:?} gives {got:?}; on a tree never queried before it gives {want:?}", shots[*o - nd]));
                    break;
                }
            }
            let mut h = H::new();
            seq.iter().for_each(|x| h.add(*x as u64 + 1));
            h.add(ch as u64 / tail as u64);
            sink.states.insert(h.0);
            sink.nontrivial += seq.windows(2).any(|w| w[0] >= nd && w[1] < nd) as u64;
            sink.judge(r, || (format!("{}: {:?}", cfg.code(), show(&seq)), String::new()))?;
        }
        sink.out("sequences");
        Ok(())
    })
}

/// A larger tree: every pair of queries, the second one after the first, against a fresh tree.
fn pairs(name: &str, kind: Kind, n: usize, nk: usize) -> Space {
    let data: Vec<Shape> = lattice(n, 0.0, 7.5)
        .iter()
        .enumerate()
        .map(|(i, s)| match (kind, s) {
            (Kind::B, Shape::Pt(c)) if i % 2 == 0 => rc(c.0, c.1, c.0 + 0.5, c.1 + 0.25),
            _ => s.clone(),
        })
        .collect();
    let mut cs: Vec<Shape> = cmps_large().into_iter().step_by(3).collect();
    // Different shapes with one box
    cs.extend([ln(0.0, 0.0, 8.0, 8.0), ln(0.0, 8.0, 8.0, 0.0), rc(0.0, 0.0, 8.0, 8.0), Shape::Ls(vec![(0.0, 0.0), (8.0, 0.0), (8.0, 8.0)]), Shape::Pg(vec![(0.0, 8.0), (8.0, 8.0), (0.0, 0.0)], vec![])]);
    cs.extend([ln(1.0, 1.5, 7.0, 5.0), ln(1.0, 5.0, 7.0, 1.5), rc(1.0, 1.5, 7.0, 5.0)]);
    let cg: Vec<Geometry<f64>> = cs.iter().map(|c| c.geom()).collect();
    let mut shots = vec![Shot::IterAll, Shot::Show, Shot::IterFew(5)];
    for c in 0..cs.len() {
        shots.push(Shot::Find(c));
        shots.push(Shot::SortedFew(c, 20));
        for k in 1..=nk {
            shots.push(Shot::Knn(c, 1 << k));
        }
        shots.push(Shot::FindR(c, 0.5));
        shots.push(Shot::KnnR(c, 9, 1.25));
        if kind == Kind::B || matches!(cs[c], Shape::Pt(_)) {
            shots.push(Shot::Retrieve(cs[c].clone()));
        }
    }
    let m = shots.len();
    Space::new(name, format!("every ordered pair of {m} queries on a tree of {} data, against the answer on a fresh tree", n * n), m, move |i, sink| {
        let cfg = Cfg { kind, b: UNIT, calc: CalcMethod::Euclidean, lim: Some((4, 2)) };
        let fresh = || {
            let mut t = mk(&cfg);
            for (i, s) in data.iter().enumerate() {
                t.insert(i, s.geom()).ok();
            }
            t
        };
        // Alone: the answer on a tree that has seen nothing else
        let want = shot(&fresh(), &cg, &shots[i]);
        let t = fresh();
        for s in &shots {
            sink.at(|| format!("{} with {} data: {s:?}, then {:?}", cfg.code(), data.len(), shots[i]));
            shot(&t, &cg, s);
            let got = shot(&t, &cg, &shots[i]);
            sink.evals += 1;
            sink.transitions += 2;
            sink.traces += 1;
            let mut h = H::new();
            h.add(i as u64);
            h.add(sink.traces);
            sink.states.insert(h.0);
            sink.nontrivial += 1;
            let r = if got == want { Ok(()) } else { Err(format!("after {s:?}, {:?} gives {got:?}; on a fresh tree it gives {want:?}", shots[i])) };
            sink.judge(r, || (format!("{} with {} data: {s:?}, then {:?}", cfg.code(), data.len(), shots[i]), String::new()))?;
        }
        sink.out("pairs");
        Ok(())
    })
}

/// Trees and comparators that take turns in one and the same place in memory: what a search
/// finds there is what it holds now, not what was there before.
fn one_place(name: &str, kind: Kind, calc: CalcMethod, nt: usize) -> Space {
    let f = if matches!(calc, CalcMethod::Spherical) { GLOBE } else { Frame::ID };
    let datum = |i: usize, x: f64, y: f64| if kind == Kind::B && i % 2 == 0 { rc(x, y, x + 0.25, y + 0.5) } else { pt(x, y) };
    let mut trees: Vec<(Cfg, Vec<Shape>)> = vec![];
    for (lim, n, b) in [((0u8, 1usize), 4, UNIT), ((0, 1), 4, B::new(-1.0, 0.0, 12.0, 9.0)), ((1, 1), 4, UNIT), ((4, 1), 3, UNIT), ((4, 2), 6, UNIT), ((4, 1), 1, UNIT), ((2, 1), 0, UNIT)].into_iter().take(nt) {
        let data = (0..n).map(|i| f.s(&datum(i, (i * 5 % 7) as f64 + 0.5, (i * 3 % 7) as f64 + 0.25))).collect();
        trees.push((Cfg { kind, b: f.b(b), calc, lim: Some(lim) }, data));
    }
    let mut cs: Vec<Shape> = vec![pt(4.0, 4.0), pt(0.5, 0.25), pt(9.0, 2.0), pt(1.0, 7.5), pt(7.0, 0.0)];
    if f.sx == 1.0 {
        cs.extend([rc(4.0, 4.0, 5.0, 5.0), rc(0.0, 5.0, 1.0, 7.0), ln(0.0, 0.0, 8.0, 6.0), ln(0.0, 6.0, 8.0, 0.0)]);
    }
    let cs: Vec<Shape> = cs.iter().map(|s| f.s(s)).collect();
    let cg: Vec<Geometry<f64>> = cs.iter().map(|s| s.geom()).collect();
    let r = |a: f64| a * f.sx.min(f.sy);
    let shots = [Shot::Find(0), Shot::FindR(0, r(2.0)), Shot::Knn(0, 2), Shot::Knn(0, 9), Shot::KnnR(0, 9, r(3.0)), Shot::SortedAll(0), Shot::SortedFew(0, 1)];
    let all: Vec<(usize, usize, usize)> = (0..trees.len()).flat_map(|t| (0..cs.len()).flat_map(move |c| (0..7).map(move |s| (t, c, s)))).collect();
    let what = format!("every ordered pair of searches out of {} ({} trees, {} comparators, {} searches), trees and comparators taking turns in one variable each", all.len(), trees.len(), cs.len(), shots.len());
    Space::new(name, what, all.len(), move |i, sink| {
        let build = |t: usize| {
            let mut u = mk(&trees[t].0);
            for (i, s) in trees[t].1.iter().enumerate() {
                u.insert(i, s.geom()).ok();
            }
            u
        };
        // Answers of trees and comparators with a place of their own
        let own: Vec<AnyTree<f64>> = (0..trees.len()).map(build).collect();
        let first = all[i];
        let told = |n: (usize, usize, usize)| format!("{:?} to {:?} on {} with {:?}", shots[n.2], cs[n.1], trees[n.0].0.code(), trees[n.0].1);
        let mut tree = None;
        let mut cmp = [cg[first.1].clone()];
        for (j, then) in all.iter().enumerate() {
            sink.at(|| format!("{}, then {}", told(first), told(*then)));
            drop(tree.take());
            let was = tree.insert(build(first.0));
            cmp[0] = cg[first.1].clone();
            shot(was, &cmp, &shots[first.2]);
            if then.0 != first.0 {
                drop(tree.take());
                tree = Some(build(then.0));
            }
            let Some(now) = &tree else { unreachable!() };
            cmp[0] = cg[then.1].clone();
            let got = shot(now, &cmp, &shots[then.2]);
            let want = shot(&own[then.0], &cg[then.1..], &shots[then.2]);
            sink.evals += 1;
            sink.transitions += 2;
            sink.traces += 1;
            let mut h = H::new();
            h.add(i as u64 + 77);
            h.add(j as u64);
            sink.states.insert(h.0);
            sink.nontrivial += (first != *then) as u64;
            let r = if got == want { Ok(()) } else { Err(format!("after {}, {} in the same place gives {got:?}; elsewhere it gives {want:?}", told(first), told(*then))) };
            sink.judge(r, || (format!("{}, then {}", told(first), told(*then)), String::new()))?;
        }
        sink.out("pairs");
        Ok(())
    })
}

/// Whether a value may cross threads, as a value rather than as an error of the compiler.
struct Cross<T>(T);
trait May {
    fn may(&self) -> bool;
}
trait MayNot {
    fn may(&self) -> bool;
}
impl<T: Send + Sync> May for Cross<T> {
    fn may(&self) -> bool {
        true
    }
}
impl<T> MayNot for &Cross<T> {
    fn may(&self) -> bool {
        false
    }
}

/// Trees and their iterators can be handed to and shared between threads at all.
fn shareable() -> Space {
    Space::new("shareable", "both kinds of tree over f64, f32 and i32 and each of their iterators: may be sent to and shared between threads", 3, |i, sink| {
        macro_rules! facts {
            ($t:ty, $search:tt) => {{
                let b = Rect::new(Coord { x: 0 as $t, y: 0 as $t }, Coord { x: 8 as $t, y: 8 as $t });
                let p: PointQuadTree<Item<$t>, $t> = PointQuadTree::from_bounds(b, CalcMethod::Euclidean);
                let q: BoundsQuadTree<Item<$t>, $t> = BoundsQuadTree::from_bounds(b, CalcMethod::Euclidean);
                let d = Item { id: 0, g: Geometry::Point(Point(Coord { x: 1 as $t, y: 1 as $t })) };
                let mut v = vec![
                    ("point tree", (&Cross(&p)).may()),
                    ("bounds tree", (&Cross(&q)).may()),
                    ("iterator of a point tree", (&Cross(p.into_iter())).may()),
                    ("iterator of a bounds tree", (&Cross(q.into_iter())).may()),
                    ("retrieval from a point tree", (&Cross(p.retrieve(&d))).may()),
                    ("retrieval from a bounds tree", (&Cross(q.retrieve(&d))).may()),
                ];
                facts!(@ $search, v, p, q, d);
                v
            }};
            (@ yes, $v:ident, $p:ident, $q:ident, $d:ident) => {
                $v.push(("sorted search of a point tree", (&Cross($p.sorted(&$d))).may()));
                $v.push(("sorted search of a bounds tree", (&Cross($q.sorted(&$d))).may()));
            };
            (@ no, $v:ident, $p:ident, $q:ident, $d:ident) => {};
        }
        #[allow(unused_mut)]
        let (ty, v) = match i {
            0 => ("f64", facts!(f64, yes)),
            1 => ("f32", facts!(f32, yes)),
            _ => ("i32", facts!(i32, no)),
        };
        for (what, may) in v {
            sink.at(|| format!("{what} over {ty}"));
            sink.evals += 1;
            sink.traces += 1;
            sink.nontrivial += 1;
            let mut h = H::new();
            h.add(i as u64);
            h.add(sink.traces);
            sink.states.insert(h.0);
            let r = if may { Ok(()) } else { Err("cannot be used from several threads".to_string()) };
            sink.judge(r, || (format!("{what} over {ty}"), String::new()))?;
        }
        sink.out(ty);
        Ok(())
    })
}

pub fn c17(tier: Tier) -> Vec<Space> {
    let qk = tier == Tier::Quick;
    let mut v = vec![
        shareable(),
        interleave("pairs-ends", 2, if qk { 5 } else { 7 }, !qk, true),
        interleave("pairs-abandoned", 2, if qk { 4 } else { 5 }, true, false),
        interleave("triples", 3, if qk { 2 } else { 3 }, !qk, true),
        across("two-trees", if qk { 2 } else { 3 }, true),
        threads("threads-2", 2, if qk { 3 } else { 5 }, !qk),
        inside("inside", !qk),
        broken_off("broken-off", true),
        marathon(tier),
        threads("threads-3", 3, if qk { 1 } else { 2 }, false),
    ];
    for kind in [Kind::P, Kind::B] {
        v.push(mixed(&format!("mixed-{kind:?}"), kind, false, if qk { 4 } else { 5 }, false));
        v.push(mixed(&format!("mixed-wide-{kind:?}"), kind, false, if qk { 3 } else { 4 }, true));
        v.push(mixed(&format!("mixed-sphere-{kind:?}"), kind, true, if qk { 3 } else { 4 }, false));
        for calc in [CalcMethod::Euclidean, CalcMethod::Spherical] {
            v.push(one_place(&format!("one-place-{kind:?}-{calc:?}"), kind, calc, if qk { 4 } else { 7 }));
        }
        v.push(pairs(&format!("query-pairs-{kind:?}"), kind, if qk { 6 } else { 9 }, if qk { 2 } else { 4 }));
    }
    v
}
