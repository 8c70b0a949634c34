//! Stateless exhaustive explorer: enumerates every sequence of choices a harness body makes, up to
//! a bound on the summed cost of the choices (cost = deviations from the default answer, e.g.
//! preemptions, short reads, faults).  Each execution re-runs the real code from the start.

use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

/// FxHash-like hasher with a final mix: only used for fingerprints.
#[derive(Default, Clone)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut w = [0u8; 8];
            w[..c.len()].copy_from_slice(c);
            self.write_u64(u64::from_le_bytes(w) ^ ((c.len() as u64) << 56));
        }
    }
    fn write_u8(&mut self, v: u8) {
        self.write_u64(v as u64)
    }
    fn write_u32(&mut self, v: u32) {
        self.write_u64(v as u64)
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = (self.0.rotate_left(5) ^ v).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_usize(&mut self, v: usize) {
        self.write_u64(v as u64)
    }
    fn finish(&self) -> u64 {
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
}
pub fn fp<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = Fx::default();
    t.hash(&mut h);
    h.finish()
}

#[derive(Clone, Debug)]
pub struct Violation(pub String);
pub type Res = Result<(), Violation>;

#[macro_export]
macro_rules! fail {
    ($($a:tt)*) => { return Err($crate::engine::Violation(format!($($a)*))) };
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { $crate::fail!($($a)*) } };
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Choice {
    pub n: u32,
    pub k: u32,
}

pub struct Ctx {
    prefix: Vec<Choice>,
    pub trace: Vec<Choice>,
    /// cost of a non-default alternative at each point (0 = free)
    costs: Vec<u8>,
    /// remaining deviations, so that harnesses can prune
    spent: u32,
    bound: u32,
    note_on: bool,
    pub notes: Vec<String>,
    states: Vec<u64>,
    edges: Vec<u64>,
    last_state: u64,
    outcomes: Vec<u64>,
    pub evals: u64,
    diverged: Option<String>,
    tier_thorough: bool,
}

impl Ctx {
    fn new(prefix: Vec<Choice>, bound: u32, note_on: bool, thorough: bool) -> Self {
        Ctx {
            prefix,
            trace: Vec::new(),
            costs: Vec::new(),
            spent: 0,
            bound,
            note_on,
            notes: Vec::new(),
            states: Vec::new(),
            edges: Vec::new(),
            last_state: 0,
            outcomes: Vec::new(),
            evals: 0,
            diverged: None,
            tier_thorough: thorough,
        }
    }
    pub fn thorough(&self) -> bool {
        self.tier_thorough
    }
    pub fn has_diverged(&self) -> bool {
        self.diverged.is_some()
    }
    fn pick(&mut self, n: usize, cost: u8) -> usize {
        assert!(n > 0, "choice among nothing");
        if n == 1 {
            return 0;
        }
        let i = self.trace.len();
        let k = if i < self.prefix.len() {
            let c = self.prefix[i];
            if c.n != n as u32 {
                self.diverged = Some(format!(
                    "choice {i}: {} alternatives recorded, {n} now",
                    c.n
                ));
                std::panic::resume_unwind(Box::new(Diverged));
            }
            c.k
        } else {
            0
        };
        self.trace.push(Choice { n: n as u32, k });
        self.costs.push(cost);
        if k > 0 {
            self.spent += cost as u32;
        }
        k as usize
    }
    /// A free choice: every alternative is explored.
    pub fn choose(&mut self, n: usize) -> usize {
        self.pick(n, 0)
    }
    /// Alternative 0 is the default; any other costs one deviation.
    pub fn deviate(&mut self, n: usize) -> usize {
        self.pick(n, 1)
    }
    pub fn choose_cost(&mut self, n: usize, cost: u8) -> usize {
        self.pick(n, cost)
    }
    pub fn of<'a, T>(&mut self, s: &'a [T]) -> &'a T {
        &s[self.choose(s.len())]
    }
    pub fn flag(&mut self) -> bool {
        self.choose(2) == 1
    }
    pub fn bound(&self) -> u32 {
        self.bound
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.note_on {
            self.notes.push(f());
        }
    }
    /// Records the state reached; an edge from the previously recorded one is counted too.
    pub fn state<T: Hash>(&mut self, t: &T) {
        let s = fp(t);
        self.states.push(s);
        self.edges.push(fp(&(self.last_state, s)));
        self.last_state = s;
    }
    pub fn root(&mut self) {
        self.last_state = 0;
    }
    pub fn outcome<T: Hash>(&mut self, t: &T) {
        self.outcomes.push(fp(t));
    }
    pub fn eval(&mut self, n: u64) {
        self.evals += n;
    }
}

struct Diverged;

#[derive(Clone)]
pub struct Cfg {
    pub name: &'static str,
    pub bound: u32,
    /// wall clock limit of this harness
    pub max: Duration,
    pub workers: usize,
    pub what: &'static str,
}

pub fn cfg(name: &'static str, what: &'static str) -> Cfg {
    Cfg {
        name,
        bound: u32::MAX,
        max: Duration::from_secs(240),
        workers: ncpu(),
        what,
    }
}
impl Cfg {
    pub fn bound(mut self, b: u32) -> Self {
        self.bound = b;
        self
    }
    pub fn workers(mut self, n: usize) -> Self {
        self.workers = n;
        self
    }
    pub fn max_secs(mut self, n: u64) -> Self {
        self.max = Duration::from_secs(n);
        self
    }
}

pub fn ncpu() -> usize {
    std::thread::available_parallelism().map_or(4, |n| n.get()).min(16)
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub name: String,
    pub what: String,
    pub executions: u64,
    pub evals: u64,
    pub choice_points: u64,
    pub states: u64,
    pub edges: u64,
    pub outcomes: u64,
    pub bound: u32,
    pub max_depth: usize,
    pub complete: bool,
    pub wall: f64,
    pub samples: Vec<String>,
    pub sets_capped: bool,
}

const SHARDS: usize = 64;
const SET_CAP: u64 = 40_000_000;
struct FpSet {
    sh: Vec<Mutex<HashSet<u64, std::hash::BuildHasherDefault<Ident>>>>,
    n: AtomicU64,
}
#[derive(Default, Clone)]
pub struct Ident(u64);
impl Hasher for Ident {
    fn write(&mut self, _: &[u8]) {}
    fn write_u64(&mut self, v: u64) {
        self.0 = v
    }
    fn finish(&self) -> u64 {
        self.0
    }
}
impl FpSet {
    fn new() -> Self {
        FpSet {
            sh: (0..SHARDS).map(|_| Mutex::new(HashSet::default())).collect(),
            n: AtomicU64::new(0),
        }
    }
    fn add(&self, v: &mut Vec<u64>) {
        if v.is_empty() {
            return;
        }
        v.sort_unstable_by_key(|x| x >> 58);
        v.dedup();
        let mut i = 0;
        while i < v.len() {
            let s = (v[i] >> 58) as usize;
            let mut g = self.sh[s].lock().unwrap();
            while i < v.len() && (v[i] >> 58) as usize == s {
                if self.n.load(Ordering::Relaxed) < SET_CAP && g.insert(v[i]) {
                    self.n.fetch_add(1, Ordering::Relaxed);
                }
                i += 1;
            }
        }
        v.clear();
    }
    fn len(&self) -> u64 {
        self.n.load(Ordering::Relaxed)
    }
}

pub struct Found {
    pub harness: &'static str,
    pub choices: Vec<Choice>,
    pub msg: String,
    pub notes: Vec<String>,
    pub hang: bool,
}

pub enum Outcome {
    Ok(Stats),
    Violated(Found, Stats),
    /// the machinery failed: no verdict
    Error(String),
}

struct Shared {
    stack: Mutex<(Vec<Vec<Choice>>, usize)>,
    cv: Condvar,
    stop: AtomicBool,
    idle: AtomicUsize,
}

pub enum One {
    Ok,
    Bad(String),
    Diverged(String),
}

fn run_one<F>(body: &F, ctx: &mut Ctx) -> One
where
    F: Fn(&mut Ctx) -> Res + Sync,
{
    verif_sched::take_panic();
    let r = catch_unwind(AssertUnwindSafe(|| body(ctx)));
    verif_sched::set_select(None);
    verif_sched::set_accept(None);
    match r {
        Ok(Ok(())) => One::Ok,
        Ok(Err(v)) => One::Bad(v.0),
        Err(p) => {
            if p.downcast_ref::<Diverged>().is_some() {
                One::Diverged(ctx.diverged.clone().unwrap_or_default())
            } else {
                One::Bad(format!(
                    "panic: {}",
                    verif_sched::take_panic().unwrap_or_else(|| "?".into())
                ))
            }
        }
    }
}

pub const HANG_S: u64 = 40;

/// Explores every execution of `body` within the bound.
pub fn explore<F>(c: &Cfg, thorough: bool, body: F) -> Outcome
where
    F: Fn(&mut Ctx) -> Res + Sync,
{
    let t0 = Instant::now();
    let shared = Shared {
        stack: Mutex::new((vec![vec![]], 0)),
        cv: Condvar::new(),
        stop: AtomicBool::new(false),
        idle: AtomicUsize::new(0),
    };
    let found: Mutex<Option<(Vec<Choice>, String, u32)>> = Mutex::new(None);
    let error: Mutex<Option<String>> = Mutex::new(None);
    let capped = AtomicBool::new(false);
    let diverged = AtomicU64::new(0);
    let (states, edges, outs) = (FpSet::new(), FpSet::new(), FpSet::new());
    let execs = AtomicU64::new(0);
    let evals = AtomicU64::new(0);
    let points = AtomicU64::new(0);
    let depth = AtomicUsize::new(0);
    let samples: Mutex<Vec<String>> = Mutex::new(vec![]);
    let beats: Vec<(AtomicU64, Mutex<Vec<Choice>>)> = (0..c.workers)
        .map(|_| (AtomicU64::new(0), Mutex::new(vec![])))
        .collect();
    let done = AtomicBool::new(false);

    let hang: Option<Vec<Choice>> = std::thread::scope(|s| {
        let mut hs = vec![];
        for w in 0..c.workers {
            let (shared, found, error, capped, diverged) = (&shared, &found, &error, &capped, &diverged);
            let (states, edges, outs, samples) = (&states, &edges, &outs, &samples);
            let (execs, evals, points, depth, body) = (&execs, &evals, &points, &depth, &body);
            let beat = &beats[w];
            hs.push(
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(s, move || {
                        let mut local: Vec<Vec<Choice>> = vec![];
                        let (mut sv, mut ev, mut ov) = (vec![], vec![], vec![]);
                        let mut n = 0u64;
                        loop {
                            if shared.stop.load(Ordering::Relaxed) {
                                break;
                            }
                            let prefix = match local.pop() {
                                Some(p) => p,
                                None => {
                                    let mut g = shared.stack.lock().unwrap();
                                    loop {
                                        if let Some(p) = g.0.pop() {
                                            g.1 += 1;
                                            break Some(p);
                                        }
                                        if g.1 == 0 || shared.stop.load(Ordering::Relaxed) {
                                            shared.cv.notify_all();
                                            break None;
                                        }
                                        shared.idle.fetch_add(1, Ordering::Relaxed);
                                        g = shared.cv.wait(g).unwrap();
                                        shared.idle.fetch_sub(1, Ordering::Relaxed);
                                    }
                                }
                                .unwrap_or(vec![Choice { n: 0, k: 0 }]),
                            };
                            if prefix.first().is_some_and(|c| c.n == 0) {
                                break;
                            }
                            let plen = prefix.len();
                            *beat.1.lock().unwrap() = prefix.clone();
                            beat.0.store(
                                t0.elapsed().as_millis() as u64 + 1,
                                Ordering::Relaxed,
                            );
                            let e0 = execs.fetch_add(1, Ordering::Relaxed);
                            let sample = e0 == 0 || e0 == 37 || e0 == 1009 || e0 == 20011;
                            let mut ctx = Ctx::new(prefix, c.bound, sample, thorough);
                            let r = run_one(body, &mut ctx);
                            beat.0.store(0, Ordering::Relaxed);
                            points.fetch_add(
                                (ctx.trace.len() - plen.min(ctx.trace.len())) as u64,
                                Ordering::Relaxed,
                            );
                            evals.fetch_add(ctx.evals, Ordering::Relaxed);
                            depth.fetch_max(ctx.trace.len(), Ordering::Relaxed);
                            if sample && matches!(r, One::Ok) {
                                let ks: Vec<String> =
                                    ctx.trace.iter().map(|c| c.k.to_string()).collect();
                                let mut t = format!("[{}] {}: {}", c.name, ks.join(","), ctx.notes.join("; "));
                                if t.len() > 900 {
                                    let mut i = 900;
                                    while !t.is_char_boundary(i) { i -= 1; }
                                    t.truncate(i);
                                    t.push_str(" ...");
                                }
                                samples.lock().unwrap().push(t);
                            }
                            match r {
                                One::Ok => {}
                                One::Bad(m) => {
                                    let mut f = found.lock().unwrap();
                                    let better = match &*f {
                                        None => true,
                                        Some((_, _, sp)) => ctx.spent < *sp,
                                    };
                                    if better {
                                        *f = Some((ctx.trace.clone(), m, ctx.spent));
                                    }
                                    shared.stop.store(true, Ordering::Relaxed);
                                    let _g = shared.stack.lock().unwrap();
                                    shared.cv.notify_all();
                                    break;
                                }
                                One::Diverged(m) => {
                                    // something outside our control varies: keep looking for a
                                    // real violation, give no verdict if there is none
                                    // (with points at every branch, how many there are
                                    // depends on hashing and on memory: those are left out)
                                    if verif_sched::edges() {
                                        capped.store(true, Ordering::Relaxed);
                                    } else {
                                        *error.lock().unwrap() =
                                            Some(format!("replay diverged: {m}"));
                                    }
                                    if !verif_sched::edges() && diverged.fetch_add(1, Ordering::Relaxed) > 2000 {
                                        shared.stop.store(true, Ordering::Relaxed);
                                        let _g = shared.stack.lock().unwrap();
                                        shared.cv.notify_all();
                                        break;
                                    }
                                }
                            }
                            // children
                            let mut spent = 0u32;
                            for i in 0..ctx.trace.len() {
                                let ch = ctx.trace[i];
                                if i >= plen {
                                    if spent + ctx.costs[i] as u32 <= c.bound {
                                        for alt in (1..ch.n).rev() {
                                            let mut p = ctx.trace[..i].to_vec();
                                            p.push(Choice { n: ch.n, k: alt });
                                            local.push(p);
                                        }
                                    }
                                }
                                if ch.k > 0 {
                                    spent = spent.saturating_add(ctx.costs[i] as u32);
                                }
                            }
                            sv.append(&mut ctx.states);
                            ev.append(&mut ctx.edges);
                            ov.append(&mut ctx.outcomes);
                            n += 1;
                            if n % 64 == 0 || sv.len() > 20000 {
                                states.add(&mut sv);
                                edges.add(&mut ev);
                                outs.add(&mut ov);
                                if t0.elapsed() > c.max {
                                    capped.store(true, Ordering::Relaxed);
                                    shared.stop.store(true, Ordering::Relaxed);
                                    let _g = shared.stack.lock().unwrap();
                                    shared.cv.notify_all();
                                    break;
                                }
                            }
                            // hand work over / leave
                            if local.is_empty() {
                                let mut g = shared.stack.lock().unwrap();
                                g.1 -= 1;
                                if g.1 == 0 && g.0.is_empty() {
                                    shared.cv.notify_all();
                                }
                            } else if local.len() > 1
                                && (shared.idle.load(Ordering::Relaxed) > 0 || n < 4)
                            {
                                let half = local.len() / 2;
                                let give: Vec<_> = local.drain(..half.max(1)).collect();
                                let mut g = shared.stack.lock().unwrap();
                                g.0.extend(give);
                                shared.cv.notify_all();
                            }
                        }
                        states.add(&mut sv);
                        edges.add(&mut ev);
                        outs.add(&mut ov);
                    })
                    .unwrap(),
            );
        }
        // monitor: a stuck execution is a hang of the code under test
        let mut hung = None;
        loop {
            if hs.iter().all(|h| h.is_finished()) {
                break;
            }
            std::thread::sleep(Duration::from_millis(if t0.elapsed().as_millis() < 500 { 3 } else { 25 }));
            let now = t0.elapsed().as_millis() as u64;
            for b in &beats {
                let v = b.0.load(Ordering::Relaxed);
                if v != 0 && now > v + HANG_S * 1000 {
                    hung = Some(b.1.lock().unwrap().clone());
                }
            }
            if hung.is_some() {
                shared.stop.store(true, Ordering::Relaxed);
                {
                    let _g = shared.stack.lock().unwrap();
                    shared.cv.notify_all();
                }
                // the stuck thread cannot be joined: report from here
                hang_exit(c, hung.clone().unwrap());
            }
        }
        done.store(true, Ordering::Relaxed);
        hung
    });
    let _ = hang;

    let complete = !capped.load(Ordering::Relaxed) && !shared.stop.load(Ordering::Relaxed);
    let mut samples = samples.into_inner().unwrap();
    samples.sort();
    samples.truncate(4);
    let st = Stats {
        name: c.name.into(),
        what: c.what.into(),
        executions: execs.load(Ordering::Relaxed),
        evals: evals.load(Ordering::Relaxed),
        choice_points: points.load(Ordering::Relaxed),
        states: states.len(),
        edges: edges.len(),
        outcomes: outs.len(),
        bound: c.bound,
        max_depth: depth.load(Ordering::Relaxed),
        complete,
        wall: t0.elapsed().as_secs_f64(),
        samples,
        sets_capped: states.len() >= SET_CAP,
    };
    if let Some((choices, msg, _)) = found.into_inner().unwrap() {
        let f = confirm(c, thorough, &body, choices, msg);
        return match f {
            Ok(f) => Outcome::Violated(f, st),
            Err(e) => Outcome::Error(e),
        };
    }
    if let Some(e) = error.into_inner().unwrap() {
        return Outcome::Error(format!("{}: {e}", c.name));
    }
    Outcome::Ok(st)
}

/// Re-runs the failing execution; a failure that never shows again is no verdict.
fn confirm<F>(c: &Cfg, thorough: bool, body: &F, choices: Vec<Choice>, msg: String) -> Result<Found, String>
where
    F: Fn(&mut Ctx) -> Res + Sync,
{
    let mut again = 0;
    let mut notes = vec![];
    let mut last = msg.clone();
    let t0 = Instant::now();
    for i in 0..60 {
        if i > 6 && t0.elapsed() > Duration::from_secs(20) {
            break;
        }
        let mut ctx = Ctx::new(choices.clone(), u32::MAX, true, thorough);
        match run_one(body, &mut ctx) {
            One::Bad(m) => {
                again += 1;
                last = m;
                notes = ctx.notes;
                if again >= 2 {
                    break;
                }
            }
            One::Ok => {}
            One::Diverged(_) => {}
        }
    }
    if again == 0 && !verif_sched::edges() {
        return Err(format!(
            "{}: a failing execution did not fail again when replayed ({msg})",
            c.name
        ));
    }
    Ok(Found {
        harness: c.name,
        choices,
        msg: last,
        notes,
        hang: false,
    })
}

/// Whether an execution that went wrong also does when run again with the same choices.
pub fn again<F>(ctx: &Ctx, body: &F) -> bool
where
    F: Fn(&mut Ctx) -> Res + Sync,
{
    let mut c = Ctx::new(ctx.trace.clone(), ctx.bound, false, ctx.tier_thorough);
    matches!(run_one(body, &mut c), One::Bad(_))
}

/// Runs one recorded execution (replay).
pub fn replay<F>(choices: Vec<Choice>, thorough: bool, body: F) -> (One, Vec<String>)
where
    F: Fn(&mut Ctx) -> Res + Sync,
{
    let mut ctx = Ctx::new(choices, u32::MAX, true, thorough);
    let r = run_one(&body, &mut ctx);
    (r, ctx.notes)
}

pub static HANG: Mutex<Option<Box<dyn Fn(&Found) + Send>>> = Mutex::new(None);

fn hang_exit(c: &Cfg, choices: Vec<Choice>) -> ! {
    let f = Found {
        harness: c.name,
        choices,
        msg: format!("an execution did not end within {HANG_S} s (the code under test hangs)"),
        notes: vec![],
        hang: true,
    };
    if let Some(h) = &*HANG.lock().unwrap() {
        h(&f);
    }
    std::process::exit(1);
}
