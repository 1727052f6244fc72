//! Stateless exhaustive explorer.
//!
//! A scenario body is a deterministic function of the answers `Ctx::choose`
//! gives it.  The explorer enumerates *every* sequence of answers (optionally
//! bounding the number of non-default `dev` answers), running the body - which
//! drives the real library code - once per sequence.

use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Clone, Debug)]
struct Point {
    n: u32,
    chosen: u32,
    dev: bool,
}

#[derive(Clone, Debug)]
pub struct Failure {
    pub key: String,
    pub msg: String,
}

pub struct Ctx {
    prefix: Vec<(u32, u32)>,
    trace: Vec<Point>,
    devs: u32,
    dev_bound: u32,
    diverged: Option<String>,
    pub tier: Tier,
    pub seed: u64,
    transitions: u64,
    states: Vec<u64>,
    outcome: Option<String>,
    notes: Vec<String>,
    want_notes: bool,
    failure: Option<Failure>,
    pruned: bool,
}

/// Thrown (by panicking with it) to leave a body early.
struct Leave;

impl Ctx {
    fn new(prefix: Vec<(u32, u32)>, dev_bound: u32, tier: Tier, seed: u64, want_notes: bool) -> Self {
        Ctx {
            prefix,
            trace: Vec::new(),
            devs: 0,
            dev_bound,
            diverged: None,
            tier,
            seed,
            transitions: 0,
            states: Vec::new(),
            outcome: None,
            notes: Vec::new(),
            want_notes,
            failure: None,
            pruned: false,
        }
    }
    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }
    /// `q` in the quick tier, `t` in the thorough one.
    pub fn by_tier<T>(&self, q: T, t: T) -> T {
        if self.quick() {
            q
        } else {
            t
        }
    }
    fn point(&mut self, n: usize, dev: bool) -> usize {
        assert!(n > 0, "choice among nothing");
        let pos = self.trace.len();
        let n = n as u32;
        let chosen = if pos < self.prefix.len() {
            let (c, pn) = self.prefix[pos];
            if pn != n || c >= n {
                self.diverged = Some(format!(
                    "choice point {} offered {} alternatives on replay, {} before",
                    pos, n, pn
                ));
                std::panic::panic_any(Leave);
            }
            c
        } else {
            0
        };
        if dev && chosen != 0 {
            self.devs += 1;
        }
        self.trace.push(Point { n, chosen, dev });
        chosen as usize
    }
    /// Free choice among `0..n`: every alternative is explored.
    pub fn choose(&mut self, n: usize) -> usize {
        if n == 1 {
            return 0;
        }
        self.point(n, false)
    }
    pub fn flag(&mut self) -> bool {
        self.choose(2) == 1
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.choose(xs.len());
        &xs[i]
    }
    /// Integer in `lo..=hi`.
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.choose(hi - lo + 1)
    }
    /// Deviation point: 0 is the honest answer, any other one costs one
    /// deviation out of the scenario's budget.
    pub fn dev(&mut self, n: usize) -> usize {
        if n == 1 || self.devs >= self.dev_bound {
            return 0;
        }
        self.point(n, true)
    }
    pub fn devs(&self) -> u32 {
        self.devs
    }
    /// One transition of the system under test; `s` fingerprints what was observed.
    pub fn step<H: Hash>(&mut self, s: H) {
        self.transitions += 1;
        let mut h = Fnv::default();
        s.hash(&mut h);
        self.states.push(h.finish());
    }
    /// Classify the execution.
    pub fn outcome(&mut self, s: impl Into<String>) {
        self.outcome = Some(s.into());
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.want_notes {
            let s = f();
            self.notes.push(s);
        }
    }
    /// Leave: this combination of choices is not a case (not counted).
    pub fn prune(&mut self) -> ! {
        self.pruned = true;
        std::panic::panic_any(Leave)
    }
    /// The property is broken in this execution.
    pub fn fail(&mut self, key: impl Into<String>, msg: impl Into<String>) -> ! {
        self.failure = Some(Failure { key: key.into(), msg: msg.into() });
        std::panic::panic_any(Leave)
    }
    pub fn check(&mut self, ok: bool, key: &str, msg: impl FnOnce() -> String) {
        if !ok {
            let m = msg();
            self.fail(key, m)
        }
    }
    /// Run library code that must not panic.
    pub fn must<T>(&mut self, what: &str, f: impl FnOnce() -> T) -> T {
        match guard(f) {
            Ok(v) => v,
            Err(p) => self.fail(format!("panic:{}", what), format!("{} panicked: {}", what, p)),
        }
    }
}

/// Run library code, turning a panic into its message.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(e) => {
            if e.is::<Leave>() {
                std::panic::resume_unwind(e)
            }
            Err(LAST_PANIC.with(|l| l.borrow().1.clone()))
        }
    }
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<(String, String)> = const { std::cell::RefCell::new((String::new(), String::new())) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let file = info.location().map(|l| l.file().to_string()).unwrap_or_default();
        let line = info.location().map(|l| l.line()).unwrap_or(0);
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        LAST_PANIC.with(|l| *l.borrow_mut() = (file.clone(), format!("{} ({}:{})", msg, file, line)));
    }));
}

#[derive(Clone)]
pub struct Fnv(u64);
impl Default for Fnv {
    fn default() -> Self {
        Fnv(0xcbf29ce484222325)
    }
}
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    fn write(&mut self, bytes: &[u8]) {
        for b in bytes {
            self.0 = (self.0 ^ *b as u64).wrapping_mul(0x100000001b3);
        }
    }
}

pub struct Scenario {
    pub name: String,
    pub dev_bound: u32,
    pub body: Box<dyn Fn(&mut Ctx) + Sync + Send>,
}

pub fn scenario(name: &str, dev_bound: u32, body: impl Fn(&mut Ctx) + Sync + Send + 'static) -> Scenario {
    Scenario { name: name.to_string(), dev_bound, body: Box::new(body) }
}

enum Verdict {
    Ok,
    Pruned,
    Fail(Failure),
    Engine(String),
}

struct RunResult {
    verdict: Verdict,
    ctx: Ctx,
}

fn run_once(sc: &Scenario, prefix: Vec<(u32, u32)>, tier: Tier, seed: u64, want_notes: bool) -> RunResult {
    let mut ctx = Ctx::new(prefix, sc.dev_bound, tier, seed, want_notes);
    getrandom::mc_seed(seed);
    let r = catch_unwind(AssertUnwindSafe(|| (sc.body)(&mut ctx)));
    let verdict = if let Some(d) = ctx.diverged.take() {
        Verdict::Engine(format!("replay diverged: {}", d))
    } else if let Some(f) = ctx.failure.take() {
        Verdict::Fail(f)
    } else if ctx.pruned {
        Verdict::Pruned
    } else {
        match r {
            Ok(()) => Verdict::Ok,
            Err(e) if e.is::<Leave>() => Verdict::Engine("left without a reason".into()),
            Err(_) => {
                let (file, msg) = LAST_PANIC.with(|l| l.borrow().clone());
                // A panic raised inside the harness is an error of the check; one
                // raised in library code while the harness relies on it is a failure.
                if file.starts_with("src/") {
                    Verdict::Engine(format!("harness panicked: {}", msg))
                } else {
                    Verdict::Fail(Failure { key: "panic:unexpected".into(), msg: format!("library code panicked: {}", msg) })
                }
            }
        }
    };
    if matches!(verdict, Verdict::Ok) && ctx.trace.len() < ctx.prefix.len() {
        return RunResult {
            verdict: Verdict::Engine("replay ended before its prefix".into()),
            ctx,
        };
    }
    RunResult { verdict, ctx }
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub scenario: String,
    pub choices: Vec<(u32, u32)>,
    pub devs: u32,
    pub key: String,
    pub msg: String,
    pub notes: Vec<String>,
    pub deterministic: bool,
}

#[derive(Default)]
pub struct Report {
    pub executions: u64,
    pub pruned: u64,
    pub transitions: u64,
    pub choice_points: u64,
    pub max_depth: usize,
    pub states: u64,
    pub outcomes: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub violations: Vec<Violation>,
    pub known: Vec<(String, String, u64)>,
    pub engine_errors: Vec<String>,
    pub capped: bool,
    pub per_scenario: Vec<(String, u64, u64, u32)>,
}

struct Shared<'a> {
    sc: &'a Scenario,
    tier: Tier,
    seed: u64,
    stack: Mutex<(Vec<Vec<(u32, u32)>>, usize)>,
    cv: Condvar,
    stop: AtomicBool,
    executions: AtomicU64,
    pruned: AtomicU64,
    transitions: AtomicU64,
    points: AtomicU64,
    max_depth: AtomicUsize,
    states: Vec<Mutex<HashSet<u64>>>,
    outcomes: Mutex<BTreeMap<String, u64>>,
    fails: Mutex<Vec<Violation>>,
    known: Mutex<BTreeMap<String, (String, u64)>>,
    engine: Mutex<Vec<String>>,
    samples: Mutex<Vec<String>>,
    capped: AtomicBool,
    active: Vec<Mutex<Option<(Instant, Vec<(u32, u32)>)>>>,
}

pub struct Options {
    pub tier: Tier,
    pub seed: u64,
    pub threads: usize,
    pub deadline: Option<Instant>,
    pub known: HashSet<String>,
    /// file each worker writes its current choices to (post-mortem of a crash)
    pub journal: Option<std::fs::File>,
    pub hang_limit: Duration,
}

const SLOT: usize = 4096;

fn journal_write(f: &std::fs::File, slot: usize, sc: &str, prefix: &[(u32, u32)]) {
    use std::os::unix::fs::FileExt;
    let mut s = encode(sc, prefix);
    s.truncate(SLOT - 1);
    s.push('\n');
    let _ = f.write_all_at(s.as_bytes(), (slot * SLOT) as u64);
}

/// What was running in each worker when the process died.
pub fn journal_read(text: &[u8]) -> Vec<(String, Vec<(u32, u32)>)> {
    text.chunks(SLOT)
        .filter_map(|c| {
            let e = c.iter().position(|b| *b == b'\n')?;
            decode(std::str::from_utf8(&c[..e]).ok()?)
        })
        .collect()
}

pub fn encode(sc: &str, prefix: &[(u32, u32)]) -> String {
    let cs: Vec<String> = prefix.iter().map(|(c, n)| format!("{}/{}", c, n)).collect();
    format!("{} {}", sc, cs.join(","))
}

pub fn decode(s: &str) -> Option<(String, Vec<(u32, u32)>)> {
    let (sc, rest) = s.split_once(' ').unwrap_or((s, ""));
    let mut v = Vec::new();
    for p in rest.trim().split(',').filter(|x| !x.is_empty()) {
        let (c, n) = p.split_once('/')?;
        v.push((c.trim().parse().ok()?, n.trim().parse().ok()?));
    }
    Some((sc.to_string(), v))
}

pub fn explore(sc: &Scenario, opt: &Options, rep: &mut Report) {
    let sh = Shared {
        sc,
        tier: opt.tier,
        seed: opt.seed,
        stack: Mutex::new((vec![vec![]], 0)),
        cv: Condvar::new(),
        stop: AtomicBool::new(false),
        executions: AtomicU64::new(0),
        pruned: AtomicU64::new(0),
        transitions: AtomicU64::new(0),
        points: AtomicU64::new(0),
        max_depth: AtomicUsize::new(0),
        states: (0..64).map(|_| Mutex::new(HashSet::new())).collect(),
        outcomes: Mutex::new(BTreeMap::new()),
        fails: Mutex::new(vec![]),
        known: Mutex::new(BTreeMap::new()),
        engine: Mutex::new(vec![]),
        samples: Mutex::new(vec![]),
        capped: AtomicBool::new(false),
        active: (0..opt.threads).map(|_| Mutex::new(None)).collect(),
    };
    let done = AtomicBool::new(false);
    std::thread::scope(|s| {
        let mut hs = vec![];
        for w in 0..opt.threads {
            let sh = &sh;
            let b = std::thread::Builder::new().stack_size(64 << 20);
            hs.push(b.spawn_scoped(s, move || worker(sh, opt, w)).unwrap());
        }
        // hang watchdog
        let (sh2, done2) = (&sh, &done);
        s.spawn(move || {
            while !done2.load(Ordering::Relaxed) {
                std::thread::sleep(Duration::from_millis(20));
                for a in &sh2.active {
                    if let Some((t, p)) = &*a.lock().unwrap() {
                        if t.elapsed() > opt.hang_limit {
                            // cannot be unwound: report from the supervisor
                            if let Some(f) = &opt.journal {
                                for slot in 0..opt.threads {
                                    journal_write(f, slot, "", &[]);
                                }
                                journal_write(f, 0, &sh2.sc.name, p);
                            }
                            std::process::exit(97);
                        }
                    }
                }
            }
        });
        for h in hs {
            let _ = h.join();
        }
        done.store(true, Ordering::Relaxed);
    });
    let ex = sh.executions.load(Ordering::Relaxed);
    let st: u64 = sh.states.iter().map(|m| m.lock().unwrap().len() as u64).sum();
    rep.executions += ex;
    rep.pruned += sh.pruned.load(Ordering::Relaxed);
    rep.transitions += sh.transitions.load(Ordering::Relaxed);
    rep.choice_points += sh.points.load(Ordering::Relaxed);
    rep.max_depth = rep.max_depth.max(sh.max_depth.load(Ordering::Relaxed));
    rep.states += st;
    for (k, v) in sh.outcomes.into_inner().unwrap() {
        *rep.outcomes.entry(format!("{}: {}", sc.name, k)).or_default() += v;
    }
    rep.samples.extend(sh.samples.into_inner().unwrap());
    let mut fails = sh.fails.into_inner().unwrap();
    fails.sort_by(|a, b| (a.devs, a.choices.len(), &a.choices).cmp(&(b.devs, b.choices.len(), &b.choices)));
    if let Some(mut v) = fails.into_iter().next() {
        // replay twice: same choices must give the same failure, then collect the story
        let full: Vec<(u32, u32)> = v.choices.clone();
        let mut same = true;
        for _ in 0..2 {
            let r = run_once(sc, full.clone(), opt.tier, opt.seed, true);
            match r.verdict {
                Verdict::Fail(f) if f.key == v.key => v.notes = r.ctx.notes,
                _ => same = false,
            }
        }
        v.deterministic = same;
        rep.violations.push(v);
    }
    for (k, (m, n)) in sh.known.into_inner().unwrap() {
        rep.known.push((k, m, n));
    }
    rep.engine_errors.extend(sh.engine.into_inner().unwrap());
    if sh.capped.load(Ordering::Relaxed) {
        rep.capped = true;
    }
    rep.per_scenario.push((sc.name.clone(), ex, st, sc.dev_bound));
}

fn worker(sh: &Shared, opt: &Options, w: usize) {
    let mut outcomes: BTreeMap<String, u64> = BTreeMap::new();
    loop {
        let prefix = {
            let mut g = sh.stack.lock().unwrap();
            loop {
                if sh.stop.load(Ordering::Relaxed) {
                    g.0.clear();
                }
                if let Some(p) = g.0.pop() {
                    g.1 += 1;
                    break Some(p);
                }
                if g.1 == 0 {
                    break None;
                }
                g = sh.cv.wait(g).unwrap();
            }
        };
        let Some(prefix) = prefix else {
            sh.cv.notify_all();
            break;
        };
        if let Some(d) = opt.deadline {
            if Instant::now() > d {
                sh.capped.store(true, Ordering::Relaxed);
                sh.stop.store(true, Ordering::Relaxed);
            }
        }
        if let Some(f) = &opt.journal {
            journal_write(f, w, &sh.sc.name, &prefix);
        }
        *sh.active[w].lock().unwrap() = Some((Instant::now(), prefix.clone()));
        let plen = prefix.len();
        let want = prefix.iter().map(|p| p.0 as usize).sum::<usize>() < 4 || sh.samples.lock().unwrap().len() < 2;
        let r = run_once(sh.sc, prefix, sh.tier, sh.seed, want);
        *sh.active[w].lock().unwrap() = None;
        let ctx = r.ctx;
        let choices: Vec<(u32, u32)> = ctx.trace.iter().map(|p| (p.chosen, p.n)).collect();
        match r.verdict {
            Verdict::Pruned => {
                sh.pruned.fetch_add(1, Ordering::Relaxed);
            }
            Verdict::Ok => {
                sh.executions.fetch_add(1, Ordering::Relaxed);
                *outcomes.entry(ctx.outcome.clone().unwrap_or_else(|| "ok".into())).or_default() += 1;
                if want {
                    let mut s = sh.samples.lock().unwrap();
                    if s.len() < 3 {
                        s.push(format!(
                            "[{}] choices {:?}: {} => {}",
                            sh.sc.name,
                            choices.iter().map(|c| c.0).collect::<Vec<_>>(),
                            ctx.notes.join("; "),
                            ctx.outcome.clone().unwrap_or_else(|| "ok".into())
                        ));
                    }
                }
            }
            Verdict::Fail(f) => {
                sh.executions.fetch_add(1, Ordering::Relaxed);
                if opt.known.contains(&f.key) {
                    let mut k = sh.known.lock().unwrap();
                    let e = k.entry(f.key.clone()).or_insert((f.msg.clone(), 0));
                    e.1 += 1;
                    *outcomes.entry(format!("known finding {}", f.key)).or_default() += 1;
                } else {
                    let mut v = sh.fails.lock().unwrap();
                    v.push(Violation {
                        scenario: sh.sc.name.clone(),
                        choices: choices.clone(),
                        devs: ctx.devs,
                        key: f.key,
                        msg: f.msg,
                        notes: vec![],
                        deterministic: true,
                    });
                    if v.len() >= 64 {
                        sh.stop.store(true, Ordering::Relaxed);
                    }
                }
            }
            Verdict::Engine(e) => {
                sh.engine.lock().unwrap().push(format!("{}: {}", encode(&sh.sc.name, &choices), e));
                sh.stop.store(true, Ordering::Relaxed);
            }
        }
        sh.transitions.fetch_add(ctx.transitions, Ordering::Relaxed);
        sh.points.fetch_add((ctx.trace.len() - plen.min(ctx.trace.len())) as u64, Ordering::Relaxed);
        sh.max_depth.fetch_max(ctx.trace.len(), Ordering::Relaxed);
        for s in ctx.states {
            sh.states[(s & 63) as usize].lock().unwrap().insert(s);
        }
        // schedule the siblings of every choice made beyond the prefix
        let mut next = vec![];
        let mut devs_before = 0;
        for (i, p) in ctx.trace.iter().enumerate() {
            if i >= plen {
                for alt in (p.chosen + 1..p.n).rev() {
                    if p.dev && p.chosen == 0 && devs_before + 1 > sh.sc.dev_bound {
                        continue;
                    }
                    let mut np = choices[..i].to_vec();
                    np.push((alt, p.n));
                    next.push(np);
                }
            }
            if p.dev && p.chosen != 0 {
                devs_before += 1;
            }
        }
        let mut g = sh.stack.lock().unwrap();
        g.0.extend(next);
        g.1 -= 1;
        drop(g);
        sh.cv.notify_all();
    }
    let mut o = sh.outcomes.lock().unwrap();
    for (k, v) in outcomes {
        *o.entry(k).or_default() += v;
    }
}

/// Replay one recorded execution.
pub fn replay(sc: &Scenario, choices: &[(u32, u32)], tier: Tier, seed: u64) -> Result<Vec<String>, (Failure, Vec<String>)> {
    let r = run_once(sc, choices.to_vec(), tier, seed, true);
    match r.verdict {
        Verdict::Fail(f) => Err((f, r.ctx.notes)),
        Verdict::Engine(e) => Err((Failure { key: "engine".into(), msg: e }, r.ctx.notes)),
        _ => Ok(r.ctx.notes),
    }
}
