//! Stateless exhaustive explorer.
//!
//! A test body draws every decision it needs from a `Ch`; the explorer runs the body once for every possible
//! sequence of answers (free choices) within the deviation budget, in parallel. Nothing is sampled.
use std::cell::RefCell;
use std::collections::hash_map::DefaultHasher;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}
impl Tier {
    pub fn pick<T>(self, q: T, t: T) -> T {
        match self {
            Tier::Quick => q,
            Tier::Thorough => t,
        }
    }
}

/// How a body ends early.
pub enum Stop {
    /// The property does not hold in this execution.
    Fail { key: String, msg: String },
    /// The scenario is outside the stated space (symmetric duplicate or precondition not met).
    Skip,
}
pub type R = Result<(), Stop>;

pub fn fail<T>(msg: impl Into<String>) -> Result<T, Stop> {
    Err(Stop::Fail {
        key: String::new(),
        msg: msg.into(),
    })
}
#[allow(unused)]
pub fn fail_key<T>(key: impl Into<String>, msg: impl Into<String>) -> Result<T, Stop> {
    Err(Stop::Fail {
        key: key.into(),
        msg: msg.into(),
    })
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return $crate::engine::fail(format!($($a)*)); } };
}

/// Source of decisions of one execution.
pub struct Ch<'a> {
    prefix: &'a [u32],
    pub trace: Vec<(u32, u32, bool)>,
    devs: u32,
    budget: u32,
    steps: u64,
    compared: u64,
    states: Vec<u64>,
    outcomes: Vec<u64>,
    notes: Option<Vec<String>>,
    pub worker: usize,
}

impl<'a> Ch<'a> {
    fn draw(&mut self, n: usize, dev: bool) -> usize {
        assert!(n >= 1 && n < u32::MAX as usize, "choose: bad arity {n}");
        if n == 1 {
            return 0;
        }
        let i = self.trace.len();
        let c = if i < self.prefix.len() {
            self.prefix[i]
        } else {
            0
        };
        if c as usize >= n {
            ENGINE_ERROR.store(true, Ordering::SeqCst);
            panic!("engine: replay diverged at choice {i}: {c} >= {n}");
        }
        if dev && c != 0 {
            self.devs += 1;
        }
        self.trace.push((c, n as u32, dev));
        c as usize
    }
    /// Free choice among `n` answers.
    pub fn choose(&mut self, n: usize) -> usize {
        self.draw(n, false)
    }
    /// Answer 0 is the default; any other costs one deviation of the budget.
    pub fn deviate(&mut self, n: usize) -> usize {
        if self.devs >= self.budget {
            return 0;
        }
        self.draw(n, true)
    }
    pub fn pick<T: Clone>(&mut self, xs: &[T]) -> T {
        let i = self.choose(xs.len());
        xs[i].clone()
    }
    pub fn dev<T: Clone>(&mut self, xs: &[T]) -> T {
        let i = self.deviate(xs.len());
        xs[i].clone()
    }
    pub fn flag(&mut self) -> bool {
        self.choose(2) == 1
    }
    /// A permutation of 0..n.
    pub fn permutation(&mut self, n: usize) -> Vec<usize> {
        let mut rest: Vec<usize> = (0..n).collect();
        let mut out = Vec::with_capacity(n);
        while !rest.is_empty() {
            let i = self.choose(rest.len());
            out.push(rest.remove(i));
        }
        out
    }
    /// Records one operation executed on the real code.
    pub fn step(&mut self) {
        self.steps += 1;
    }
    pub fn steps(&mut self, n: u64) {
        self.steps += n;
    }
    /// Records that the outcome of this execution was compared with the reference.
    pub fn compared(&mut self) {
        self.compared += 1;
    }
    /// Records a canonical state (scenario with its observed outcome).
    pub fn state<H: Hash>(&mut self, h: &H) {
        self.states.push(hash(h));
    }
    /// Records what was observed (to show that the space is not vacuous).
    pub fn outcome<H: Hash>(&mut self, h: &H) {
        self.outcomes.push(hash(h));
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if let Some(n) = &mut self.notes {
            n.push(f());
        }
    }
    pub fn verbose(&self) -> bool {
        self.notes.is_some()
    }
}

pub fn hash<H: Hash>(h: &H) -> u64 {
    let mut s = DefaultHasher::new();
    h.hash(&mut s);
    s.finish()
}

pub static ENGINE_ERROR: AtomicBool = AtomicBool::new(false);

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "?".into());
        let at = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = Some(format!("panicked at {at}: {msg}")));
    }));
}

/// Runs `f`, turning a panic into an error message.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| {
        PANIC
            .with(|p| p.borrow_mut().take())
            .unwrap_or_else(|| "panicked".into())
    })
}

type Body = Box<dyn Fn(&mut Ch) -> R + Send + Sync>;

pub struct Space {
    pub name: String,
    /// Alphabet and bound, in words.
    pub bound: String,
    pub budget: u32,
    /// A single execution taking longer than this is a hang.
    pub case_limit: Duration,
    pub threads: Option<usize>,
    pub body: Body,
}

impl Space {
    pub fn new(
        name: &str,
        bound: &str,
        body: impl Fn(&mut Ch) -> R + Send + Sync + 'static,
    ) -> Self {
        Space {
            name: name.into(),
            bound: bound.into(),
            budget: 0,
            case_limit: Duration::from_secs(40),
            threads: None,
            body: Box::new(body),
        }
    }
    pub fn budget(mut self, b: u32) -> Self {
        self.budget = b;
        self
    }
    #[allow(unused)]
    pub fn threads(mut self, n: usize) -> Self {
        self.threads = Some(n);
        self
    }
    pub fn limit(mut self, secs: u64) -> Self {
        self.case_limit = Duration::from_secs(secs);
        self
    }
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub space: String,
    pub choices: Vec<u32>,
    pub devs: u32,
    pub key: String,
    pub msg: String,
    pub notes: Vec<String>,
    pub reproduced: bool,
}

#[derive(Default)]
pub struct SpaceStats {
    pub name: String,
    pub bound: String,
    pub executions: u64,
    pub skipped: u64,
    pub compared: u64,
    pub steps: u64,
    pub states: u64,
    pub outcomes: u64,
    pub max_depth: usize,
    pub max_devs: u32,
    pub violating: u64,
    pub capped: bool,
    pub wall: f64,
    pub samples: Vec<(Vec<u32>, Vec<String>)>,
}

pub struct ExploreOpts {
    pub threads: usize,
    pub deadline: Instant,
    /// Called with (space, choices, elapsed) on a hang; must not return.
    pub on_hang: Arc<dyn Fn(&str, Vec<u32>, Duration, &str) + Send + Sync>,
}

struct Local {
    executions: u64,
    skipped: u64,
    compared: u64,
    steps: u64,
    states: HashSet<u64>,
    outcomes: HashSet<u64>,
    max_depth: usize,
    max_devs: u32,
    violating: u64,
    viols: Vec<Violation>,
}

pub fn run_one<'a>(
    space: &Space,
    prefix: &'a [u32],
    verbose: bool,
    worker: usize,
) -> (Ch<'a>, Result<R, String>) {
    let mut ch = Ch {
        prefix,
        trace: Vec::with_capacity(prefix.len() + 8),
        devs: 0,
        budget: space.budget,
        steps: 0,
        compared: 0,
        states: Vec::new(),
        outcomes: Vec::new(),
        notes: if verbose { Some(Vec::new()) } else { None },
        worker,
    };
    let r = guarded(|| (space.body)(&mut ch));
    (ch, r)
}

fn rss_mb() -> u64 {
    std::fs::read_to_string("/proc/self/statm")
        .ok()
        .and_then(|s| {
            s.split_whitespace()
                .nth(1)
                .and_then(|x| x.parse::<u64>().ok())
        })
        .map(|p| p * 4096 / 1_000_000)
        .unwrap_or(0)
}

pub fn explore(
    space: &Space,
    opts: &ExploreOpts,
    max_viols: usize,
) -> (SpaceStats, Vec<Violation>) {
    let t0 = Instant::now();
    let nthreads = space.threads.unwrap_or(opts.threads);
    let queue: Mutex<Vec<Vec<u32>>> = Mutex::new(vec![vec![]]);
    let queue_len = AtomicUsize::new(1);
    let pending = AtomicUsize::new(1);
    let stop = AtomicBool::new(false);
    let capped = AtomicBool::new(false);
    let nviols = AtomicUsize::new(0);
    let cur: Vec<(AtomicU64, Mutex<Vec<u32>>)> = (0..nthreads)
        .map(|_| (AtomicU64::new(0), Mutex::new(vec![])))
        .collect();
    let done = AtomicBool::new(false);
    let mut locals: Vec<Local> = Vec::new();
    std::thread::scope(|s| {
        // watchdog
        let w = s.spawn(|| {
            while !done.load(Ordering::SeqCst) {
                std::thread::sleep(Duration::from_millis(if t0.elapsed().as_secs() < 2 {
                    5
                } else {
                    100
                }));
                let now = t0.elapsed().as_millis() as u64 + 1;
                let rss = rss_mb();
                for (start, prefix) in &cur {
                    let st = start.load(Ordering::SeqCst);
                    if st == 0 {
                        continue;
                    }
                    let el = Duration::from_millis(now.saturating_sub(st));
                    if el > space.case_limit || (rss > 14_000 && el > Duration::from_secs(2)) {
                        let p = prefix.lock().unwrap().clone();
                        (opts.on_hang)(
                            &space.name,
                            p,
                            el,
                            if rss > 14_000 {
                                "memory runaway"
                            } else {
                                "no answer"
                            },
                        );
                    }
                }
                if rss > 20_000 {
                    eprintln!("engine: out of memory budget ({rss} MB)");
                    std::process::exit(3);
                }
            }
        });
        let hs: Vec<_> = (0..nthreads)
            .map(|me| {
                let (queue, queue_len, pending, stop, capped, nviols, cur) =
                    (&queue, &queue_len, &pending, &stop, &capped, &nviols, &cur);
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, move || {
                        let mut l = Local {
                            executions: 0,
                            skipped: 0,
                            compared: 0,
                            steps: 0,
                            states: HashSet::new(),
                            outcomes: HashSet::new(),
                            max_depth: 0,
                            max_devs: 0,
                            violating: 0,
                            viols: vec![],
                        };
                        let mut stack: Vec<Vec<u32>> = Vec::new();
                        loop {
                            if stop.load(Ordering::Relaxed) {
                                break;
                            }
                            let task = match stack.pop() {
                                Some(t) => t,
                                None => {
                                    let t = {
                                        let mut q = queue.lock().unwrap();
                                        let t = q.pop();
                                        queue_len.store(q.len(), Ordering::Relaxed);
                                        t
                                    };
                                    match t {
                                        Some(t) => t,
                                        None => {
                                            if pending.load(Ordering::SeqCst) == 0 {
                                                break;
                                            }
                                            std::thread::sleep(Duration::from_micros(100));
                                            continue;
                                        }
                                    }
                                }
                            };
                            {
                                let mut c = cur[me].1.lock().unwrap();
                                c.clear();
                                c.extend_from_slice(&task);
                            }
                            cur[me]
                                .0
                                .store(t0.elapsed().as_millis() as u64 + 1, Ordering::SeqCst);
                            let (ch, r) = run_one(space, &task, false, me);
                            cur[me].0.store(0, Ordering::SeqCst);
                            l.executions += 1;
                            l.compared += ch.compared;
                            l.steps += ch.steps;
                            l.max_depth = l.max_depth.max(ch.trace.len());
                            l.max_devs = l.max_devs.max(ch.devs);
                            if l.states.len() < 6_000_000 {
                                l.states.extend(ch.states.iter().copied());
                            }
                            if l.outcomes.len() < 1_000_000 {
                                l.outcomes.extend(ch.outcomes.iter().copied());
                            }
                            let mut bad = None;
                            match r {
                                Ok(Ok(())) => {}
                                Ok(Err(Stop::Skip)) => l.skipped += 1,
                                Ok(Err(Stop::Fail { key, msg })) => bad = Some((key, msg)),
                                Err(p) => bad = Some((String::new(), p)),
                            }
                            if ENGINE_ERROR.load(Ordering::SeqCst) {
                                eprintln!("engine error: {:?}", bad);
                                std::process::exit(3);
                            }
                            if let Some((key, msg)) = bad {
                                l.violating += 1;
                                if l.viols.len() < 2000 {
                                    l.viols.push(Violation {
                                        space: space.name.clone(),
                                        choices: ch.trace.iter().map(|t| t.0).collect(),
                                        devs: ch.devs,
                                        key,
                                        msg,
                                        notes: vec![],
                                        reproduced: false,
                                    });
                                }
                                if nviols.fetch_add(1, Ordering::SeqCst) + 1 >= max_viols {
                                    stop.store(true, Ordering::SeqCst);
                                }
                            }
                            // alternatives beyond the fixed prefix
                            let mut added = 0;
                            let mut devs_before = 0u32;
                            for (i, &(c, n, dev)) in ch.trace.iter().enumerate() {
                                if i >= task.len() {
                                    let affordable = !dev || devs_before < space.budget;
                                    if affordable {
                                        for alt in (1..n).rev() {
                                            let mut p: Vec<u32> = Vec::with_capacity(i + 1);
                                            p.extend(ch.trace[..i].iter().map(|t| t.0));
                                            p.push(alt);
                                            stack.push(p);
                                            added += 1;
                                        }
                                    }
                                }
                                if dev && c != 0 {
                                    devs_before += 1;
                                }
                            }
                            pending.fetch_add(added, Ordering::SeqCst);
                            pending.fetch_sub(1, Ordering::SeqCst);
                            // share work
                            if stack.len() > 1 && queue_len.load(Ordering::Relaxed) < nthreads {
                                let k = stack.len() / 2;
                                let mut q = queue.lock().unwrap();
                                q.extend(stack.drain(..k));
                                queue_len.store(q.len(), Ordering::Relaxed);
                            }
                            if l.executions % 64 == 0 && Instant::now() > opts.deadline {
                                capped.store(true, Ordering::SeqCst);
                                stop.store(true, Ordering::SeqCst);
                            }
                        }
                        l
                    })
                    .unwrap()
            })
            .collect();
        for h in hs {
            locals.push(h.join().expect("worker died"));
        }
        done.store(true, Ordering::SeqCst);
        w.join().unwrap();
    });
    let mut st = SpaceStats {
        name: space.name.clone(),
        bound: space.bound.clone(),
        ..Default::default()
    };
    let mut states: HashSet<u64> = HashSet::new();
    let mut outcomes: HashSet<u64> = HashSet::new();
    let mut viols = vec![];
    for l in locals {
        st.executions += l.executions;
        st.skipped += l.skipped;
        st.compared += l.compared;
        st.steps += l.steps;
        st.max_depth = st.max_depth.max(l.max_depth);
        st.max_devs = st.max_devs.max(l.max_devs);
        st.violating += l.violating;
        if states.is_empty() {
            states = l.states;
        } else {
            states.extend(l.states);
        }
        outcomes.extend(l.outcomes);
        viols.extend(l.viols);
    }
    st.states = states.len() as u64;
    st.outcomes = outcomes.len() as u64;
    st.capped = capped.load(Ordering::SeqCst);
    viols.sort_by_key(|v| {
        (
            v.devs,
            v.choices.len(),
            v.choices.iter().map(|c| *c as u64).sum::<u64>(),
            v.choices.clone(),
        )
    });
    // Replay the smallest ones, to render them and to see whether they fail the same way again.
    for v in viols.iter_mut().take(3) {
        let choices = v.choices.clone();
        let (ch, r) = run_one(space, &choices, true, 0);
        v.notes = ch.notes.unwrap_or_default();
        v.reproduced = match r {
            Ok(Err(Stop::Fail { msg, .. })) => msg == v.msg,
            Err(p) => p == v.msg,
            _ => false,
        };
    }
    // Samples: the default execution and the execution at the far end of the first choice.
    for p in [vec![], last_prefix(space)] {
        let (ch, _) = run_one(space, &p, true, 0);
        let tr = ch.trace.iter().map(|t| t.0).collect();
        let mut notes = ch.notes.unwrap_or_default();
        for n in notes.iter_mut() {
            if n.len() > 1500 {
                let mut k = 1500;
                while !n.is_char_boundary(k) {
                    k -= 1;
                }
                n.truncate(k);
                n.push_str("...");
            }
        }
        notes.truncate(12);
        st.samples.push((tr, notes));
    }
    st.wall = t0.elapsed().as_secs_f64();
    (st, viols)
}

/// Prefix of the execution that takes the middle answer at every free choice.
fn last_prefix(space: &Space) -> Vec<u32> {
    let mut p: Vec<u32> = vec![];
    for _ in 0..64 {
        let q = p.clone();
        let (ch, _) = run_one(space, &q, false, 0);
        if ch.trace.len() <= p.len() {
            break;
        }
        let (_, n, dev) = ch.trace[p.len()];
        p.push(if dev { 0 } else { n / 2 });
    }
    p
}

impl<'a> Ch<'a> {
    pub fn into_notes(self) -> Vec<String> {
        self.notes.unwrap_or_default()
    }
}
