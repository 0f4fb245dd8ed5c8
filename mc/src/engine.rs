//! Exhaustive exploration of bounded choice trees, executed on the real code.
//!
//! A *space* is a deterministic function of a [`Ch`]: every call to one of the
//! `Ch` pick functions is a branching point with a known number of alternatives.
//! The explorer enumerates every path of the resulting tree (stateless model
//! checking by re-execution); nothing is sampled.  Alternatives are put in cost
//! tiers 0..3 and a path is within the bound when the sum of the costs of its
//! choices does not exceed the budget of the space (deviation bounding: the
//! analogue of a preemption bound).

use std::cell::RefCell;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub enum Fail {
    /// The property is broken.
    Violation(String),
    /// A failure that matches the exact signature of a listed known finding.
    Known(&'static str, String),
}

impl From<String> for Fail {
    fn from(s: String) -> Self {
        Fail::Violation(s)
    }
}
impl From<&str> for Fail {
    fn from(s: &str) -> Self {
        Fail::Violation(s.to_string())
    }
}

pub type R = Result<(), Fail>;

#[derive(Clone, Copy)]
struct Step {
    chosen: u32,
    limit: u32,
}

pub struct Ch {
    prefix: Vec<u32>,
    trail: Vec<Step>,
    left: u32,
    /// Stops the execution at the first choice after the prefix.
    probe: bool,
    /// Set when the execution is repeated to describe it.
    pub explain: bool,
    pub notes: Vec<String>,
}

impl Ch {
    pub fn replaying(prefix: Vec<u32>, budget: u32) -> Self {
        let mut c = Ch::new(prefix, budget);
        c.explain = true;
        c
    }
    fn new(prefix: Vec<u32>, budget: u32) -> Self {
        Ch {
            prefix,
            trail: Vec::with_capacity(32),
            left: budget,
            probe: false,
            explain: false,
            notes: Vec::new(),
        }
    }

    /// Picks one alternative; `tiers[k]` alternatives cost `k`. Tier 0 must not be empty.
    pub fn tiers(&mut self, tiers: &[usize]) -> usize {
        debug_assert!(tiers[0] > 0);
        let mut limit = 0usize;
        for (cost, n) in tiers.iter().enumerate() {
            if cost as u32 <= self.left {
                limit += n;
            }
        }
        let pos = self.trail.len();
        let chosen = if pos < self.prefix.len() {
            self.prefix[pos] as usize
        } else {
            0
        };
        if chosen >= limit {
            panic!("exploration is not deterministic: choice {chosen} of {limit}");
        }
        let mut base = 0;
        for (cost, n) in tiers.iter().enumerate() {
            base += n;
            if chosen < base {
                self.left -= cost as u32;
                break;
            }
        }
        self.trail.push(Step {
            chosen: chosen as u32,
            limit: limit as u32,
        });
        if self.probe && self.trail.len() > self.prefix.len() {
            // not a panic: no hook is called
            std::panic::resume_unwind(Box::new(Probed));
        }
        chosen
    }

    /// `n` alternatives, all free.
    pub fn free(&mut self, n: usize) -> usize {
        self.tiers(&[n])
    }
    /// The first alternative is free, the others cost 1.
    pub fn dev(&mut self, n: usize) -> usize {
        self.tiers(&[1, n - 1])
    }
    /// The first alternative is free, the others cost 2.
    pub fn dev2(&mut self, n: usize) -> usize {
        self.tiers(&[1, 0, n - 1])
    }
    pub fn flag(&mut self) -> bool {
        self.dev(2) == 1
    }
    pub fn free_flag(&mut self) -> bool {
        self.free(2) == 1
    }
    pub fn dom<'d, T>(&mut self, d: &'d Dom<T>) -> &'d T {
        let i = self.tiers(&d.tiers);
        &d.all[i]
    }
    pub fn of<'d, T>(&mut self, all: &'d [T]) -> &'d T {
        let i = self.free(all.len());
        &all[i]
    }
    pub fn dev_of<'d, T>(&mut self, all: &'d [T]) -> &'d T {
        let i = self.dev(all.len());
        &all[i]
    }
    pub fn left(&self) -> u32 {
        self.left
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.explain {
            let s = f();
            self.notes.push(s);
        }
    }
}

/// A value domain in cost tiers.
pub struct Dom<T> {
    pub all: Vec<T>,
    pub tiers: Vec<usize>,
}

impl<T: PartialEq> Dom<T> {
    pub fn new(default: Vec<T>, narrow: Vec<T>, wide: Vec<T>) -> Self {
        let mut all: Vec<T> = Vec::new();
        let mut tiers = Vec::new();
        for t in [default, narrow, wide] {
            let mut n = 0;
            for x in t {
                if !all.contains(&x) {
                    all.push(x);
                    n += 1;
                }
            }
            tiers.push(n);
        }
        Dom { all, tiers }
    }
    pub fn with_default(&self, default: T) -> Self
    where
        T: Clone,
    {
        let n = self.tiers[0] + self.tiers[1];
        Dom::new(
            vec![default],
            self.all[..n].to_vec(),
            self.all[n..].to_vec(),
        )
    }
}

#[derive(Default, Clone)]
pub struct Stats {
    pub nodes: u64,
    pub edges: u64,
    pub leaves: u64,
}

pub struct SpaceReport {
    pub name: String,
    pub budget: u32,
    pub stats: Stats,
    pub max_depth: u64,
    pub exhaustive: bool,
    pub wall: f64,
}

pub struct Violation {
    pub space: String,
    pub budget: u32,
    pub choices: Vec<u32>,
    pub message: String,
    pub notes: Vec<String>,
}

thread_local! {
    static PANIC_MSG: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        PANIC_MSG.with(|p| *p.borrow_mut() = Some(format!("{msg} at {loc}")));
    }));
}

pub fn last_panic() -> String {
    PANIC_MSG
        .with(|p| p.borrow_mut().take())
        .unwrap_or_else(|| "panic".into())
}

/// Runs `f`, turning a panic into an error message.
pub fn no_panic<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, Fail> {
    catch_unwind(AssertUnwindSafe(f))
        .map_err(|_| Fail::Violation(format!("{what} panicked: {}", last_panic())))
}

type SpaceFn<'a> = &'a (dyn Fn(&mut Ch) -> R + Sync);

fn run(f: SpaceFn, prefix: Vec<u32>, budget: u32, explain: bool) -> (Ch, R) {
    let mut ch = Ch::new(prefix, budget);
    ch.explain = explain;
    let r = catch_unwind(AssertUnwindSafe(|| f(&mut ch)));
    let r = match r {
        Ok(r) => r,
        Err(_) => Err(Fail::Violation(format!("panicked: {}", last_panic()))),
    };
    (ch, r)
}

/// Ends a probe.
struct Probed;

/// The number of alternatives after a prefix, or `None` when the execution ends there.
fn probe(f: SpaceFn, prefix: &[u32], budget: u32) -> Option<u32> {
    let mut ch = Ch::new(prefix.to_vec(), budget);
    ch.probe = true;
    // whatever the execution of a leaf gives is looked at when it is explored
    let _ = catch_unwind(AssertUnwindSafe(|| f(&mut ch)));
    last_panic();
    ch.trail.get(prefix.len()).map(|s| s.limit)
}

struct Slot {
    since: Option<Instant>,
    choices: Vec<u32>,
}

pub struct Ctx {
    pub property: String,
    pub tier_thorough: bool,
    pub threads: usize,
    pub reports: Vec<SpaceReport>,
    pub violations: Vec<Violation>,
    pub known: BTreeMap<&'static str, (u64, String)>,
    pub samples: Vec<String>,
    pub started: Instant,
    pub deadline: Duration,
    pub replay: Option<(String, Vec<u32>, u32)>,
    pub only: Option<String>,
}

static THOROUGH: AtomicBool = AtomicBool::new(false);
/// The tier, for code inside a space.
pub fn thorough() -> bool {
    THOROUGH.load(Ordering::Relaxed)
}
pub fn set_thorough(t: bool) {
    THOROUGH.store(t, Ordering::Relaxed)
}

pub const HANG_SECS: u64 = 20;

impl Ctx {
    pub fn thorough(&self) -> bool {
        self.tier_thorough
    }
    /// Budget for the two tiers.
    pub fn b(&self, quick: u32, thorough: u32) -> u32 {
        if self.tier_thorough {
            thorough
        } else {
            quick
        }
    }

    /// Explores one space completely within the budget.
    pub fn space(&mut self, name: &str, budget: u32, f: SpaceFn) {
        if let Some((rname, choices, rbudget)) = &self.replay {
            if rname == name {
                let (ch, r) = run(f, choices.clone(), *rbudget, true);
                println!("replay of {name}:");
                for n in &ch.notes {
                    println!("{n}");
                }
                println!("result: {r:?}");
                if let Err(Fail::Violation(message)) = r {
                    self.violations.push(Violation {
                        space: name.into(),
                        budget: *rbudget,
                        choices: choices.clone(),
                        message,
                        notes: ch.notes,
                    });
                }
            }
            return;
        }
        if !self.violations.is_empty() {
            return;
        }
        if let Some(o) = &self.only {
            if !name.contains(o.as_str()) {
                return;
            }
        }
        let start = Instant::now();
        let stats = Arc::new((AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0)));
        let max_depth = AtomicU64::new(0);

        // split the tree into subtrees by expanding prefixes breadth first; the executions of leaves
        // are repeated below, so that a space of few but long executions is soon split as it is
        let target = self.threads * 64;
        let mut frontier: Vec<Vec<u32>> = vec![vec![]];
        let mut leaves: Vec<Vec<u32>> = Vec::new();
        let probing = Mutex::new(Slot { since: None, choices: Vec::new() });
        let probed = AtomicBool::new(false);
        std::thread::scope(|s| {
            let watcher = s.spawn(|| {
                while !probed.load(Ordering::Acquire) {
                    std::thread::park_timeout(Duration::from_millis(500));
                    let slot = probing.lock().unwrap();
                    if slot.since.is_some_and(|s| s.elapsed() > Duration::from_secs(HANG_SECS)) {
                        crate::report::hang(&self.property, name, budget, &slot.choices);
                    }
                }
            });
            loop {
                let mut next = Vec::new();
                let mut expanded = false;
                let total = frontier.len();
                for (i, p) in frontier.iter().enumerate() {
                    let enough = next.len() + (total - i) + leaves.len() >= target;
                    if enough || (total > 1 && start.elapsed() > Duration::from_millis(200)) {
                        next.push(p.clone());
                        continue;
                    }
                    {
                        let mut slot = probing.lock().unwrap();
                        slot.since = Some(Instant::now());
                        slot.choices.clone_from(p);
                    }
                    let limit = probe(f, p, budget);
                    probing.lock().unwrap().since = None;
                    let Some(limit) = limit else {
                        leaves.push(p.clone());
                        continue;
                    };
                    expanded = true;
                    stats.0.fetch_add(1, Ordering::Relaxed);
                    stats.1.fetch_add(limit as u64, Ordering::Relaxed);
                    for k in 0..limit {
                        let mut q = p.clone();
                        q.push(k);
                        next.push(q);
                    }
                }
                frontier = next;
                if !expanded || frontier.len() + leaves.len() >= target {
                    break;
                }
            }
            probed.store(true, Ordering::Release);
            watcher.thread().unpark();
        });
        frontier.extend(leaves);
        frontier.reverse();

        let queue = Mutex::new(frontier);
        let stop = AtomicBool::new(false);
        let truncated = AtomicBool::new(false);
        let found: Mutex<Vec<(Vec<u32>, String)>> = Mutex::new(Vec::new());
        let known: Mutex<BTreeMap<&'static str, (u64, String)>> = Mutex::new(BTreeMap::new());
        let sample_choices: Mutex<Vec<Vec<u32>>> = Mutex::new(Vec::new());
        let slots: Vec<Mutex<Slot>> = (0..self.threads)
            .map(|_| {
                Mutex::new(Slot {
                    since: None,
                    choices: Vec::new(),
                })
            })
            .collect();
        let deadline = self.started + self.deadline;
        let alive = AtomicU64::new(self.threads as u64);
        let property = self.property.clone();

        std::thread::scope(|s| {
            for w in 0..self.threads {
                let (queue, stop, found, known, slots, stats, truncated, max_depth, sample_choices, alive) = (
                    &queue,
                    &stop,
                    &found,
                    &known,
                    &slots,
                    stats.clone(),
                    &truncated,
                    &max_depth,
                    &sample_choices,
                    &alive,
                );
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(s, move || {
                        let (mut nodes, mut edges, mut count) = (0u64, 0u64, 0u64);
                        let mut depth = 0usize;
                        'tasks: loop {
                            let task = queue.lock().unwrap().pop();
                            let Some(task) = task else { break };
                            let frozen = task.len();
                            let mut prefix = task;
                            let mut from = frozen;
                            let mut first = true;
                            loop {
                                if stop.load(Ordering::Relaxed) {
                                    break 'tasks;
                                }
                                if count % 256 == 0 && Instant::now() > deadline {
                                    truncated.store(true, Ordering::Relaxed);
                                    stop.store(true, Ordering::Relaxed);
                                    break 'tasks;
                                }
                                {
                                    let mut slot = slots[w].lock().unwrap();
                                    slot.since = Some(Instant::now());
                                    slot.choices.clear();
                                    slot.choices.extend_from_slice(&prefix);
                                }
                                let (ch, r) = run(f, prefix, budget, false);
                                count += 1;
                                let t = &ch.trail;
                                depth = depth.max(t.len());
                                nodes += (t.len() - from) as u64;
                                if !first {
                                    nodes -= 1;
                                }
                                edges += (t.len() - from) as u64;
                                first = false;
                                if (count & (count - 1)) == 0 && w == 0 {
                                    let mut sc = sample_choices.lock().unwrap();
                                    if sc.len() < 24 {
                                        sc.push(t.iter().map(|s| s.chosen).collect());
                                    }
                                }
                                match r {
                                    Ok(()) => {}
                                    Err(Fail::Known(k, m)) => {
                                        let mut kn = known.lock().unwrap();
                                        let e = kn.entry(k).or_insert((0, m));
                                        e.0 += 1;
                                    }
                                    Err(Fail::Violation(m)) => {
                                        found
                                            .lock()
                                            .unwrap()
                                            .push((t.iter().map(|s| s.chosen).collect(), m));
                                        stop.store(true, Ordering::Relaxed);
                                        break 'tasks;
                                    }
                                }
                                // backtrack
                                let mut i = t.len();
                                loop {
                                    if i <= frozen {
                                        break;
                                    }
                                    if t[i - 1].chosen + 1 < t[i - 1].limit {
                                        break;
                                    }
                                    i -= 1;
                                }
                                if i <= frozen {
                                    break;
                                }
                                let mut p: Vec<u32> = t[..i].iter().map(|s| s.chosen).collect();
                                p[i - 1] += 1;
                                from = i - 1;
                                prefix = p;
                            }
                        }
                        slots[w].lock().unwrap().since = None;
                        stats.0.fetch_add(nodes, Ordering::Relaxed);
                        stats.1.fetch_add(edges, Ordering::Relaxed);
                        stats.2.fetch_add(count, Ordering::Relaxed);
                        max_depth.fetch_max(depth as u64, Ordering::Relaxed);
                        alive.fetch_sub(1, Ordering::Release);
                    })
                    .unwrap();
            }
            // watchdog: an execution that does not come back is a hang
            let mut tick = 0u32;
            while alive.load(Ordering::Acquire) > 0 {
                std::thread::sleep(Duration::from_millis(2));
                tick += 1;
                if tick % 64 != 0 {
                    continue;
                }
                for slot in &slots {
                    let slot = slot.lock().unwrap();
                    if slot.since.is_some_and(|s| s.elapsed() > Duration::from_secs(HANG_SECS)) {
                        crate::report::hang(&property, name, budget, &slot.choices);
                    }
                }
            }
        });

        let st = Stats {
            nodes: stats.0.load(Ordering::Relaxed),
            edges: stats.1.load(Ordering::Relaxed),
            leaves: stats.2.load(Ordering::Relaxed),
        };
        let trunc = truncated.load(Ordering::Relaxed);
        for (choices, message) in found.into_inner().unwrap() {
            let (ch, r) = run(f, choices.clone(), budget, true);
            let message = match r {
                Err(Fail::Violation(m)) => m,
                _ => message,
            };
            self.violations.push(Violation {
                space: name.into(),
                budget,
                choices,
                message,
                notes: ch.notes,
            });
        }
        for (k, (n, m)) in known.into_inner().unwrap() {
            let e = self.known.entry(k).or_insert((0, m));
            e.0 += n;
        }
        let sc = sample_choices.into_inner().unwrap();
        for choices in sc.iter().rev().take(2) {
            let (ch, _) = run(f, choices.clone(), budget, true);
            let mut s = format!("{name}: {}", ch.notes.join(" | "));
            if s.len() > 600 {
                let mut cut = 600;
                while !s.is_char_boundary(cut) {
                    cut -= 1;
                }
                s.truncate(cut);
                s.push('…');
            }
            self.samples.push(s);
        }
        let wall = start.elapsed().as_secs_f64();
        if std::env::var_os("MC_VERBOSE").is_some() {
            eprintln!(
                "  {name}: budget {budget}, {} choice points, {} choices, {} executions, depth {}, {:.2}s{}",
                st.nodes,
                st.edges,
                st.leaves,
                max_depth.load(Ordering::Relaxed),
                wall,
                if trunc { " TRUNCATED" } else { "" }
            );
        }
        self.reports.push(SpaceReport {
            name: name.into(),
            budget,
            stats: st,
            max_depth: max_depth.load(Ordering::Relaxed),
            exhaustive: !trunc,
            wall,
        });
    }

    /// Breadth first search of a state graph with canonical states.
    /// `step` is called for every (state, operation) pair and checks the implementation.
    pub fn bfs<S, K>(
        &mut self,
        name: &str,
        init: Vec<S>,
        ops: usize,
        max_depth: usize,
        key: impl Fn(&S) -> K,
        step: impl Fn(&S, usize) -> Result<Option<S>, Fail>,
        describe: impl Fn(&S, usize) -> String,
    ) where
        K: std::hash::Hash + Eq,
    {
        // a replay explores the whole graph again, which is small
        if self.replay.as_ref().is_some_and(|r| r.0 != name) || !self.violations.is_empty() {
            return;
        }
        if let Some(o) = &self.only {
            if !name.contains(o.as_str()) {
                return;
            }
        }
        let start = Instant::now();
        let mut seen = std::collections::HashSet::new();
        let mut level: Vec<S> = Vec::new();
        for s in init {
            if seen.insert(key(&s)) {
                level.push(s);
            }
        }
        let (mut edges, mut depth) = (0u64, 0usize);
        let mut exhausted = false;
        let mut first = true;
        'outer: while depth < max_depth {
            let mut next = Vec::new();
            for s in &level {
                for op in 0..ops {
                    let r = catch_unwind(AssertUnwindSafe(|| step(s, op))).unwrap_or_else(|_| {
                        Err(Fail::Violation(format!("panicked: {}", last_panic())))
                    });
                    match r {
                        Ok(Some(n)) => {
                            edges += 1;
                            if first {
                                self.samples.push(format!("{name}: {}", describe(s, op)));
                                first = false;
                            }
                            if seen.insert(key(&n)) {
                                next.push(n);
                            }
                        }
                        Ok(None) => {}
                        Err(Fail::Known(k, m)) => {
                            let e = self.known.entry(k).or_insert((0, m));
                            e.0 += 1;
                        }
                        Err(Fail::Violation(message)) => {
                            self.violations.push(Violation {
                                space: name.into(),
                                budget: 0,
                                choices: vec![],
                                message,
                                notes: vec![describe(s, op)],
                            });
                            break 'outer;
                        }
                    }
                }
            }
            depth += 1;
            if next.is_empty() {
                exhausted = true;
                break;
            }
            level = next;
        }
        let wall = start.elapsed().as_secs_f64();
        if std::env::var_os("MC_VERBOSE").is_some() {
            eprintln!(
                "  {name}: bfs depth {depth}{}, {} states, {edges} transitions, {wall:.2}s",
                if exhausted { " (fixpoint)" } else { "" },
                seen.len()
            );
        }
        self.reports.push(SpaceReport {
            name: name.into(),
            budget: max_depth as u32,
            stats: Stats {
                nodes: seen.len() as u64,
                edges,
                leaves: edges,
            },
            max_depth: depth as u64,
            exhaustive: true,
            wall,
        });
    }
}
