//! The exploration engine: enumerates every chunk of every space on all cores, counts what was
//! covered, stops at the first violation (lowest space, then chunk) and reports it.

use std::any::Any;
use std::collections::HashSet;
use std::fmt::Write as _;
use std::fs::File;
use std::os::unix::fs::FileExt;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::time::{Duration, Instant};

/// A violation with everything needed to understand and replay it.
#[derive(Debug, Clone)]
pub struct Bad {
    pub msg: String,
    pub case: String,
    pub code: String,
}
pub type Res = Result<(), Bad>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}

pub struct Space {
    pub name: String,
    /// What is enumerated, in words.
    pub what: String,
    pub chunks: usize,
    pub run: Box<dyn Fn(usize, &mut Sink) -> Res + Sync + Send>,
}

impl Space {
    pub fn new(name: impl Into<String>, what: impl Into<String>, chunks: usize, run: impl Fn(usize, &mut Sink) -> Res + Sync + Send + 'static) -> Self {
        Space { name: name.into(), what: what.into(), chunks, run: Box::new(run) }
    }
    /// A space whose chunks are single named cases.
    pub fn cases<C: Sync + Send + 'static>(name: &str, what: &str, cases: Vec<C>, f: impl Fn(&C, &mut Sink) -> Res + Sync + Send + 'static) -> Self {
        Space::new(name, what, cases.len(), move |i, s| f(&cases[i], s))
    }
}

#[derive(Default)]
pub struct Sink {
    /// Judged observations.
    pub evals: u64,
    /// Operations executed on the real code.
    pub transitions: u64,
    /// Complete histories executed on the real code in lock-step with the reference.
    pub traces: u64,
    pub nontrivial: u64,
    pub states: HashSet<u64>,
    pub outcomes: Vec<(&'static str, u64)>,
    pub samples: Vec<String>,
    pub known_hit: Vec<String>,
    known: std::sync::Arc<HashSet<String>>,
    space: String,
    trace: Option<File>,
}

impl Sink {
    /// Note the case about to be executed (only kept when replaying a chunk).
    pub fn at(&self, f: impl FnOnce() -> String) {
        if let Some(t) = &self.trace {
            let s = f();
            let _ = t.set_len(0);
            let _ = t.write_at(s.as_bytes(), 0);
        }
    }
    pub fn out(&mut self, k: &'static str) {
        self.out_n(k, 1)
    }
    pub fn out_n(&mut self, k: &'static str, n: u64) {
        for e in &mut self.outcomes {
            if std::ptr::eq(e.0, k) || e.0 == k {
                e.1 += n;
                return;
            }
        }
        self.outcomes.push((k, n));
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 2 {
            let mut s = f();
            s.truncate(1500);
            self.samples.push(s);
        }
    }
    /// Turn a judgement into the result of the case, letting listed findings pass.
    pub fn judge(&mut self, r: Result<(), String>, case: impl FnOnce() -> (String, String)) -> Res {
        match r {
            Ok(()) => Ok(()),
            Err(msg) => {
                let (case, code) = case();
                let key = format!("{}|{}", self.space, case);
                if self.known.contains(&key) {
                    self.known_hit.push(key);
                    return Ok(());
                }
                Err(Bad { msg, case, code })
            }
        }
    }
    fn merge(&mut self, o: Sink) {
        self.evals += o.evals;
        self.transitions += o.transitions;
        self.traces += o.traces;
        self.nontrivial += o.nontrivial;
        self.states.extend(o.states);
        for (k, n) in o.outcomes {
            self.out_n(k, n);
        }
        self.samples.extend(o.samples);
        self.known_hit.extend(o.known_hit);
    }
}

thread_local! {
    static LOC: std::cell::RefCell<(String, String)> = const { std::cell::RefCell::new((String::new(), String::new())) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| l.to_string()).unwrap_or_default();
        let msg = payload(i.payload());
        LOC.with(|l| *l.borrow_mut() = (loc, msg));
    }));
}

fn payload(p: &(dyn Any + Send)) -> String {
    p.downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| p.downcast_ref::<String>().cloned()).unwrap_or_else(|| "?".into())
}

/// Did the panic come from the harness itself?
fn own_panic(loc: &str) -> bool {
    loc.starts_with("src/") || loc.contains("/verif/mc/src/")
}

pub enum Outcome {
    Good,
    Violation(Bad),
    Harness(String),
}

fn run_chunk(sp: &Space, chunk: usize, sink: &mut Sink) -> Outcome {
    sink.space = sp.name.clone();
    match catch_unwind(AssertUnwindSafe(|| (sp.run)(chunk, sink))) {
        Ok(Ok(())) => Outcome::Good,
        Ok(Err(b)) => Outcome::Violation(b),
        Err(_) => {
            let (loc, msg) = LOC.with(|l| l.borrow().clone());
            let m = format!("panicked at {loc}: {msg}");
            if own_panic(&loc) { Outcome::Harness(m) } else { Outcome::Violation(Bad { msg: m, case: String::new(), code: String::new() }) }
        }
    }
}

pub struct Opts {
    pub out: String,
    pub slots: String,
    pub budget: Duration,
    pub known: HashSet<String>,
    pub threads: usize,
    pub only: Option<String>,
}

pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Explore everything. Returns the process exit code: 0 held, 1 violation, 2 harness error, 3 no progress.
pub fn explore(spaces: Vec<Space>, o: &Opts) -> i32 {
    let spaces: Vec<Space> = spaces.into_iter().filter(|s| o.only.as_ref().is_none_or(|x| s.name.contains(x.as_str()))).collect();
    let mut jobs = vec![];
    for (i, s) in spaces.iter().enumerate() {
        for c in 0..s.chunks {
            jobs.push((i, c));
        }
    }
    let start = Instant::now();
    let next = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let capped = AtomicBool::new(false);
    let done: Vec<AtomicUsize> = spaces.iter().map(|_| AtomicUsize::new(0)).collect();
    let spent: Vec<AtomicU64> = spaces.iter().map(|_| AtomicU64::new(0)).collect();
    let slots = File::create(&o.slots).expect("slots");
    let began: Vec<AtomicU64> = (0..o.threads).map(|_| AtomicU64::new(u64::MAX)).collect();
    let slowest = AtomicU64::new(0);
    let sinks: Vec<Mutex<Sink>> = spaces.iter().map(|_| Mutex::new(Sink::default())).collect();
    let bad: Mutex<Option<(usize, usize, Bad)>> = Mutex::new(None);
    let harness: Mutex<Option<String>> = Mutex::new(None);
    let known = std::sync::Arc::new(o.known.clone());
    let live = AtomicUsize::new(o.threads);
    let mut code = 0;

    std::thread::scope(|sc| {
        for t in 0..o.threads {
            let (spaces, jobs, next, stop, capped, done, began, sinks, bad, harness, known, live, slots, spent, slowest) =
                (&spaces, &jobs, &next, &stop, &capped, &done, &began, &sinks, &bad, &harness, &known, &live, &slots, &spent, &slowest);
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn_scoped(sc, move || {
                    let mut cur: Option<(usize, Sink)> = None;
                    loop {
                        if stop.load(SeqCst) {
                            break;
                        }
                        let j = next.fetch_add(1, SeqCst);
                        if j >= jobs.len() {
                            break;
                        }
                        if start.elapsed() > o.budget {
                            capped.store(true, SeqCst);
                            break;
                        }
                        let (si, ci) = jobs[j];
                        if cur.as_ref().is_none_or(|(i, _)| *i != si) {
                            if let Some((i, s)) = cur.take() {
                                sinks[i].lock().unwrap().merge(s);
                            }
                            cur = Some((si, Sink { known: known.clone(), ..Default::default() }));
                        }
                        let sink = &mut cur.as_mut().unwrap().1;
                        let _ = slots.write_at(format!("{:<63}\n", format!("run {} {}", si, ci)).as_bytes(), t as u64 * 64);
                        let t0 = start.elapsed();
                        began[t].store(t0.as_millis() as u64, SeqCst);
                        let r = run_chunk(&spaces[si], ci, sink);
                        began[t].store(u64::MAX, SeqCst);
                        let dt = (start.elapsed() - t0).as_millis() as u64;
                        slowest.fetch_max(dt, SeqCst);
                        spent[si].fetch_add(dt, SeqCst);
                        let _ = slots.write_at(format!("{:<63}\n", "idle").as_bytes(), t as u64 * 64);
                        match r {
                            Outcome::Good => {
                                done[si].fetch_add(1, SeqCst);
                            }
                            Outcome::Violation(b) => {
                                stop.store(true, SeqCst);
                                let mut g = bad.lock().unwrap();
                                if g.as_ref().is_none_or(|(a, c, _)| (si, ci) < (*a, *c)) {
                                    *g = Some((si, ci, b));
                                }
                            }
                            Outcome::Harness(m) => {
                                stop.store(true, SeqCst);
                                *harness.lock().unwrap() = Some(format!("{} #{}: {}", spaces[si].name, ci, m));
                            }
                        }
                    }
                    if let Some((i, s)) = cur.take() {
                        sinks[i].lock().unwrap().merge(s);
                    }
                    live.fetch_sub(1, SeqCst);
                })
                .expect("thread");
        }
        while live.load(SeqCst) > 0 {
            std::thread::sleep(Duration::from_millis(5));
            let now = start.elapsed().as_millis() as u64;
            for b in &began {
                let b = b.load(SeqCst);
                if b != u64::MAX && now > b + 100_000 {
                    eprintln!("no progress in a chunk for 100 s");
                    std::process::exit(3);
                }
            }
        }
    });

    if let Some(m) = harness.lock().unwrap().as_ref() {
        eprintln!("harness error: {m}");
        code = 2;
    }
    let mut out = String::from("{\n");
    let mut total = Sink::default();
    let mut list = String::new();
    for (i, s) in spaces.iter().enumerate() {
        let mut k = std::mem::take(&mut *sinks[i].lock().unwrap());
        k.samples.sort();
        k.samples.truncate(2);
        let oc = k.outcomes.iter().map(|(a, b)| format!("{}: {}", esc(a), b)).collect::<Vec<_>>().join(", ");
        let _ = write!(
            list,
            "{}  {{\"name\": {}, \"what\": {}, \"chunks\": {}, \"chunks_done\": {}, \"states\": {}, \"transitions\": {}, \"traces\": {}, \"evaluations\": {}, \"nontrivial\": {}, \"cpu_ms\": {}, \"outcomes\": {{{}}}}}",
            if i > 0 { ",\n" } else { "" },
            esc(&s.name),
            esc(&s.what),
            s.chunks,
            done[i].load(SeqCst),
            k.states.len(),
            k.transitions,
            k.traces,
            k.evals,
            k.nontrivial,
            spent[i].load(SeqCst),
            oc
        );
        let st = std::mem::take(&mut k.states);
        // States of different spaces are told apart by mixing in the space number
        total.states.extend(st.into_iter().map(|h| h ^ (i as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15)));
        let samples = std::mem::take(&mut k.samples);
        if let Some(x) = samples.into_iter().next_back() {
            k.samples.push(format!("[{}] {}", s.name, x));
        }
        total.merge(k);
    }
    let _ = write!(
        out,
        "\"states\": {}, \"transitions\": {}, \"traces\": {}, \"evaluations\": {}, \"nontrivial\": {}, \"capped\": {}, \"slowest_chunk_ms\": {},\n\"samples\": [{}],\n\"known_hit\": [{}],\n\"spaces\": [\n{}\n]",
        total.states.len(),
        total.transitions,
        total.traces,
        total.evals,
        total.nontrivial,
        capped.load(SeqCst),
        slowest.load(SeqCst),
        total.samples.iter().map(|s| esc(s)).collect::<Vec<_>>().join(",\n"),
        total.known_hit.iter().map(|s| esc(s)).collect::<Vec<_>>().join(", "),
        list
    );
    if let Some((si, ci, b)) = bad.lock().unwrap().as_ref() {
        if code == 0 {
            code = 1;
        }
        let _ = write!(
            out,
            ",\n\"violation\": {{\"space\": {}, \"space_index\": {}, \"chunk\": {}, \"msg\": {}, \"case\": {}, \"code\": {}}}",
            esc(&spaces[*si].name),
            si,
            ci,
            esc(&b.msg),
            esc(&b.case),
            esc(&b.code)
        );
    }
    out.push_str("\n}\n");
    std::fs::write(&o.out, out).expect("out");
    code
}

/// Run a single chunk, noting every case in `trace` before it is executed.
pub fn one(spaces: Vec<Space>, si: usize, ci: usize, trace: &str) -> i32 {
    let mut sink = Sink { trace: Some(File::create(trace).expect("trace")), ..Default::default() };
    let sp = &spaces[si];
    let r = std::thread::scope(|sc| std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(sc, || run_chunk(sp, ci, &mut sink)).unwrap().join().unwrap());
    match r {
        Outcome::Good => {
            println!("held: {} chunk {}", sp.name, ci);
            0
        }
        Outcome::Violation(b) => {
            println!("space: {}\nwhat happened: {}\ncase: {}\n{}", sp.name, b.msg, b.case, b.code);
            1
        }
        Outcome::Harness(m) => {
            eprintln!("harness error: {m}");
            2
        }
    }
}

/// FNV-style hashing of small things.
#[derive(Clone, Copy)]
pub struct H(pub u64);
impl H {
    pub fn new() -> H {
        H(0xcbf29ce484222325)
    }
    pub fn add(&mut self, x: u64) {
        self.0 = (self.0 ^ x).wrapping_mul(0x100000001b3);
        self.0 ^= self.0 >> 29;
    }
}
