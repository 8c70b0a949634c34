//! The seam between the explorer and the third-party primitives the code under test uses.
//!
//! The checker builds the real haproxy-spop / haproxy-spoa sources against patched copies of
//! `dashmap` and `tokio` (made by tools/vendor.py).  The patched copies call into this crate at
//! every synchronisation operation, at every `select!` start-branch choice and at every
//! `TcpListener::accept`.  Outside a controlled execution every hook is a no-op.

use std::cell::{Cell, RefCell};
use std::io;
use std::path::PathBuf;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::mpsc;
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

// ---------------------------------------------------------------------------------------------
// controlled threads

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum St {
    Ready,
    Running,
    Blocked(usize),
    /// sleeps in the kernel's wait queue of this word while it has this value (std's locks)
    Futex(usize, u32),
    /// blocked inside a primitive that is not hooked (e.g. a std Mutex); treated as blocked
    Stalled,
    Done,
}

struct Inner {
    threads: Vec<St>,
    /// thread that holds the baton
    current: Option<usize>,
    label: &'static str,
    panics: Vec<String>,
    steps: usize,
    /// the execution was given up (deadlock): threads run free so that they can be torn down
    abandoned: bool,
    /// where the kernel describes the OS threads
    tasks: Vec<Option<PathBuf>>,
}

// A refactoring may bring in a primitive that is not hooked (a std Mutex, say).  A thread that
// sleeps in one can only be seen from outside: the kernel says that it sleeps.

fn task_file() -> Option<PathBuf> {
    thread_local! {
        static T: RefCell<Option<Option<PathBuf>>> = const { RefCell::new(None) };
    }
    T.with(|t| {
        t.borrow_mut()
            .get_or_insert_with(|| {
                let p = std::fs::read_link("/proc/thread-self").ok()?;
                Some(PathBuf::from("/proc").join(p).join("status"))
            })
            .clone()
    })
}

/// Some(how often it went to sleep so far) if the thread sleeps right now.
fn asleep(f: &Option<PathBuf>) -> Option<u64> {
    let s = std::fs::read_to_string(f.as_ref()?).ok()?;
    let mut sleeps = false;
    let mut n = 0;
    for l in s.lines() {
        if let Some(v) = l.strip_prefix("State:") {
            sleeps = v.trim_start().starts_with('S');
        }
        if let Some(v) = l.strip_prefix("voluntary_ctxt_switches:") {
            n = v.trim().parse().ok()?;
        }
    }
    sleeps.then_some(n)
}

/// The thread sleeps, and did so all the time for a while.
fn sleeps_on(f: &Option<PathBuf>) -> bool {
    let Some(n) = asleep(f) else { return false };
    (0..10).all(|_| {
        std::thread::sleep(Duration::from_millis(1));
        asleep(f) == Some(n)
    })
}

pub struct Exec {
    m: Mutex<Inner>,
    cv: Condvar,
}

thread_local! {
    static CUR: RefCell<Option<(Arc<Exec>, usize)>> = const { RefCell::new(None) };
    static SELECT: RefCell<Option<Box<dyn FnMut(u32) -> u32>>> = const { RefCell::new(None) };
    static ACCEPT: RefCell<Option<Box<dyn FnMut() -> Option<io::Error>>>> = const { RefCell::new(None) };
    static SHARDS: Cell<usize> = const { Cell::new(4) };
    static POOL: RefCell<Vec<PoolThread>> = const { RefCell::new(Vec::new()) };
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub struct Abandoned;

thread_local! {
    static INSIDE: Cell<u32> = const { Cell::new(0) };
}
/// The calling thread runs code of the scheduler, whose own locks are not explored.
struct Inside;
impl Inside {
    fn new() -> Inside {
        let _ = INSIDE.try_with(|i| i.set(i.get() + 1));
        Inside
    }
}
impl Drop for Inside {
    fn drop(&mut self) {
        let _ = INSIDE.try_with(|i| i.set(i.get() - 1));
    }
}
fn inside() -> bool {
    INSIDE.try_with(|i| i.get() > 0).unwrap_or(true)
}

/// A thread is about to sleep in the kernel until the word at `addr` is no longer `val`: Some if
/// that was explored as a step of a controlled thread, with whether it would have slept.
pub fn futex_wait(addr: usize, val: u32) -> Option<bool> {
    if inside() {
        return None;
    }
    let (e, id) = current()?;
    if word(addr) != val {
        return Some(false);
    }
    let _i = Inside::new();
    if e.m.lock().unwrap().abandoned {
        return None;
    }
    e.switch(id, St::Futex(addr, val), "futex");
    Some(true)
}

/// The sleepers at `addr` are woken.
pub fn futex_wake(addr: usize) {
    if inside() {
        return;
    }
    if let Some((e, _)) = current() {
        let _i = Inside::new();
        let mut g = e.m.lock().unwrap();
        for t in g.threads.iter_mut() {
            if matches!(*t, St::Futex(a, _) if a == addr) {
                *t = St::Ready;
            }
        }
    }
}

fn word(addr: usize) -> u32 {
    unsafe { (*(addr as *const std::sync::atomic::AtomicU32)).load(Ordering::SeqCst) }
}

fn current() -> Option<(Arc<Exec>, usize)> {
    CUR.try_with(|c| c.try_borrow().ok().and_then(|c| c.clone()))
        .ok()
        .flatten()
}

impl Exec {
    fn wait_for_baton(&self, id: usize, mut g: std::sync::MutexGuard<'_, Inner>) {
        while g.current != Some(id) && !g.abandoned {
            g = self.cv.wait(g).unwrap();
        }
        if !g.abandoned {
            g.threads[id] = St::Running;
        }
    }

    fn switch(&self, id: usize, st: St, label: &'static str) {
        let _i = Inside::new();
        let mut g = self.m.lock().unwrap();
        if g.abandoned {
            return;
        }
        g.threads[id] = st;
        g.label = label;
        if g.current == Some(id) {
            g.current = None;
        }
        self.cv.notify_all();
        self.wait_for_baton(id, g);
    }
}

/// A scheduling point: another controlled thread may run before the operation that follows.
pub fn point(label: &'static str) {
    if std::thread::panicking() {
        return;
    }
    if let Some((e, id)) = current() {
        e.switch(id, St::Ready, label);
    }
}

/// True when the calling OS thread is one of the explorer's controlled threads.
pub fn controlled() -> bool {
    current().is_some()
}

/// Acquire a lock-like resource identified by `addr`, with `try_acquire` as the atomic step.
pub fn acquire(addr: usize, label: &'static str, mut try_acquire: impl FnMut() -> bool) {
    acquire_dyn(addr, label, &mut try_acquire)
}

// not generic: this code must not be compiled with the crates that get points at every branch
fn acquire_dyn(addr: usize, label: &'static str, try_acquire: &mut dyn FnMut() -> bool) {
    let Some((e, id)) = current() else {
        let mut n = 0u32;
        while !try_acquire() {
            n += 1;
            if n > 100 {
                std::thread::yield_now();
            }
        }
        return;
    };
    if !std::thread::panicking() {
        e.switch(id, St::Ready, label);
    }
    loop {
        let abandoned = {
            let _i = Inside::new();
            if try_acquire() {
                return;
            }
            let a = e.m.lock().unwrap().abandoned;
            a
        };
        if abandoned {
            // deadlocked execution being torn down
            std::panic::resume_unwind(Box::new(Abandoned));
        }
        e.switch(id, St::Blocked(addr), label);
    }
}

/// The resource `addr` may have become available.
pub fn released(addr: usize) {
    if let Some((e, _)) = current() {
        let _i = Inside::new();
        let mut g = e.m.lock().unwrap();
        for t in g.threads.iter_mut() {
            if *t == St::Blocked(addr) {
                *t = St::Ready;
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------
// the raw reader-writer lock used by the patched dashmap

const WRITER: usize = usize::MAX;

pub fn rw_try_exclusive(s: &AtomicUsize) -> bool {
    s.compare_exchange(0, WRITER, Ordering::Acquire, Ordering::Relaxed)
        .is_ok()
}
pub fn rw_try_shared(s: &AtomicUsize) -> bool {
    s.fetch_update(Ordering::Acquire, Ordering::Relaxed, |v| {
        (v < WRITER - 1).then_some(v.wrapping_add(1))
    })
    .is_ok()
}
pub fn rw_lock_exclusive(s: &AtomicUsize) {
    acquire(s as *const _ as usize, "lock", || rw_try_exclusive(s));
}
pub fn rw_lock_shared(s: &AtomicUsize) {
    acquire(s as *const _ as usize, "lock_shared", || rw_try_shared(s));
}
pub fn rw_unlock_exclusive(s: &AtomicUsize) {
    s.store(0, Ordering::Release);
    released(s as *const _ as usize);
}
pub fn rw_unlock_shared(s: &AtomicUsize) {
    s.fetch_sub(1, Ordering::Release);
    released(s as *const _ as usize);
}
pub fn rw_downgrade(s: &AtomicUsize) {
    s.store(1, Ordering::Release);
    released(s as *const _ as usize);
}

// ---------------------------------------------------------------------------------------------
// running one controlled execution

struct PoolThread {
    tx: mpsc::Sender<Box<dyn FnOnce() + Send>>,
}

fn pool_thread() -> PoolThread {
    let (tx, rx) = mpsc::channel::<Box<dyn FnOnce() + Send>>();
    std::thread::Builder::new()
        .name("mc-thread".into())
        .stack_size(512 * 1024)
        .spawn(move || {
            while let Ok(job) = rx.recv() {
                job();
            }
        })
        .expect("spawn");
    PoolThread { tx }
}

#[derive(Debug, Default)]
pub struct Outcome {
    /// Some(description) when no thread could run and not all were done
    pub deadlock: Option<String>,
    pub panics: Vec<String>,
    pub steps: usize,
    pub stalled: bool,
}

pub type Pick<'a> = &'a mut dyn FnMut(&[usize], Option<usize>, &'static str) -> usize;

/// Runs the bodies as controlled threads.  `pick(enabled, running, label)` names the index in
/// `enabled` (canonical order: the running thread first if it is still enabled, then ascending
/// ids) of the thread that takes the next step.
pub fn run(bodies: Vec<Box<dyn FnOnce() + Send>>, horizon: usize, pick: Pick) -> Outcome {
    let n = bodies.len();
    let exec = Arc::new(Exec {
        m: Mutex::new(Inner {
            threads: vec![St::Ready; n],
            current: None,
            label: "start",
            panics: vec![],
            steps: 0,
            abandoned: false,
            tasks: vec![None; n],
        }),
        cv: Condvar::new(),
    });
    let shards = SHARDS.with(|s| s.get());
    POOL.with(|p| {
        let mut p = p.borrow_mut();
        while p.len() < n {
            p.push(pool_thread());
        }
        for (id, body) in bodies.into_iter().enumerate() {
            let exec = exec.clone();
            p[id]
                .tx
                .send(Box::new(move || {
                    SHARDS.with(|s| s.set(shards));
                    {
                        let t = task_file();
                        let mut g = exec.m.lock().unwrap();
                        g.tasks[id] = t;
                        exec.wait_for_baton(id, g);
                    }
                    CUR.with(|c| *c.borrow_mut() = Some((exec.clone(), id)));
                    let r = catch_unwind(AssertUnwindSafe(body));
                    CUR.with(|c| *c.borrow_mut() = None);
                    let mut g = exec.m.lock().unwrap();
                    g.threads[id] = St::Done;
                    if let Err(p) = r {
                        if p.downcast_ref::<Abandoned>().is_none() {
                            let msg = take_panic().unwrap_or_else(|| "panic".into());
                            g.panics.push(format!("thread {id}: {msg}"));
                        }
                    }
                    if g.current == Some(id) {
                        g.current = None;
                    }
                    exec.cv.notify_all();
                }))
                .expect("pool thread");
        }
    });

    let mut out = Outcome::default();
    let mut last: Option<usize> = None;
    let mut streak = 0u32;
    let mut given_up = None;
    let mut g = exec.m.lock().unwrap();
    loop {
        // wait until the baton is back
        let t0 = Instant::now();
        while let Some(cur) = g.current {
            let (g2, to) = exec.cv.wait_timeout(g, Duration::from_millis(10)).unwrap();
            g = g2;
            if g.current != Some(cur) || !to.timed_out() || g.threads[cur] != St::Running {
                continue;
            }
            let t = g.tasks[cur].clone();
            drop(g);
            let stuck = sleeps_on(&t);
            g = exec.m.lock().unwrap();
            if g.current != Some(cur) || g.threads[cur] != St::Running {
                continue;
            }
            if stuck {
                // blocked in something we do not control: let another thread go on
                g.threads[cur] = St::Stalled;
                g.current = None;
                out.stalled = true;
            } else if t0.elapsed() > Duration::from_secs(60) {
                out.deadlock = Some(format!("thread {cur} never came back"));
                g.abandoned = true;
                exec.cv.notify_all();
                out.panics = g.panics.clone();
                return out;
            }
        }
        // a thread that was blocked out of our sight and goes on comes to its next point before
        // the next step, or is blocked still
        while g.threads.iter().any(|t| *t == St::Stalled) {
            let l: Vec<usize> = (0..n).filter(|i| g.threads[*i] == St::Stalled).collect();
            let ts: Vec<_> = l.iter().map(|i| g.tasks[*i].clone()).collect();
            drop(g);
            let still = ts.iter().all(sleeps_on);
            g = exec.m.lock().unwrap();
            if still && l.iter().all(|i| g.threads[*i] == St::Stalled) {
                break;
            }
            if t0.elapsed() > Duration::from_secs(60) {
                break;
            }
        }
        let mut enabled: Vec<usize> = Vec::with_capacity(n);
        if let Some(l) = last {
            if g.threads[l] == St::Ready {
                enabled.push(l);
            }
        }
        for (i, t) in g.threads.iter().enumerate() {
            if *t == St::Ready && Some(i) != last {
                enabled.push(i);
            }
        }
        if enabled.is_empty() {
            if g.threads.iter().all(|t| *t == St::Done) {
                break;
            }
            // the word may be changed by a thread that is none of ours
            let mut changed = false;
            for _ in 0..200 {
                for t in g.threads.iter_mut() {
                    if matches!(*t, St::Futex(a, v) if word(a) != v) {
                        *t = St::Ready;
                        changed = true;
                    }
                }
                if changed || !g.threads.iter().any(|t| matches!(t, St::Futex(..))) {
                    break;
                }
                std::thread::sleep(Duration::from_millis(1));
            }
            if changed {
                continue;
            }
            out.deadlock = Some(format!("no thread can run: {:?}", g.threads));
            break;
        }
        g.steps += 1;
        if g.steps > horizon {
            out.deadlock = Some(format!("no end within {horizon} scheduling steps (livelock)"));
            break;
        }
        let running = last.filter(|l| enabled.first() == Some(l));
        if running.is_some() && edges() {
            // a thread that spins until another one goes on makes way in the end
            streak += 1;
            if streak > 2000 && enabled.len() > 1 {
                enabled.rotate_left(1);
                streak = 0;
                let id = enabled[0];
                last = Some(id);
                g.current = Some(id);
                exec.cv.notify_all();
                continue;
            }
        } else {
            streak = 0;
        }
        let k = match catch_unwind(AssertUnwindSafe(|| pick(&enabled, running, g.label))) {
            Ok(k) => k,
            Err(p) => {
                // the recorded choices do not fit: let the threads end, then say so
                out.deadlock = Some("given up".into());
                given_up = Some(p);
                break;
            }
        };
        let id = enabled[k];
        last = Some(id);
        g.current = Some(id);
        exec.cv.notify_all();
    }
    out.steps = g.steps;
    if out.deadlock.is_some() {
        g.abandoned = true;
        for t in g.threads.iter_mut() {
            if let St::Blocked(_) | St::Futex(..) = *t {
                *t = St::Ready;
            }
        }
        exec.cv.notify_all();
        // wait for the threads to unwind; replace the pool if they do not
        let t0 = Instant::now();
        while !g.threads.iter().all(|t| *t == St::Done) && t0.elapsed() < Duration::from_secs(1) {
            let (g2, _) = exec.cv.wait_timeout(g, Duration::from_millis(20)).unwrap();
            g = g2;
        }
        if !g.threads.iter().all(|t| *t == St::Done) {
            POOL.with(|p| p.borrow_mut().clear());
        }
    }
    out.panics = g.panics.clone();
    drop(g);
    if let Some(p) = given_up {
        std::panic::resume_unwind(p);
    }
    out
}

/// For bodies that wait for a flag (a waker, say): blocks until `ready()` holds; `released(addr)`
/// makes it look again.
pub fn wait_until(addr: usize, label: &'static str, ready: impl FnMut() -> bool) {
    acquire(addr, label, ready);
}

// ---------------------------------------------------------------------------------------------
// panic messages

pub fn record_panic(msg: String) {
    let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = Some(msg));
}
pub fn take_panic() -> Option<String> {
    LAST_PANIC.with(|p| p.borrow_mut().take())
}

// ---------------------------------------------------------------------------------------------
// select! bias, accept faults, shard count

pub fn set_select(f: Option<Box<dyn FnMut(u32) -> u32>>) {
    SELECT.with(|s| *s.borrow_mut() = f);
}
/// Called by the patched `tokio::select!` for its starting branch.
pub fn select_start(n: u32) -> Option<u32> {
    SELECT.with(|s| match s.try_borrow_mut() {
        Ok(mut s) => s.as_mut().map(|f| f(n)),
        Err(_) => None,
    })
}

pub fn set_accept(f: Option<Box<dyn FnMut() -> Option<io::Error>>>) {
    ACCEPT.with(|s| *s.borrow_mut() = f);
}
/// Called by the patched `TcpListener` before a connection is taken from the backlog.
pub fn accept_fault() -> Option<io::Error> {
    ACCEPT.with(|s| match s.try_borrow_mut() {
        Ok(mut s) => s.as_mut().and_then(|f| f()),
        Err(_) => None,
    })
}

pub fn set_shards(n: usize) {
    SHARDS.with(|s| s.set(n));
}
pub fn shards() -> usize {
    SHARDS.with(|s| s.get())
}

// ---------------------------------------------------------------------------------------------
// deterministic hashing for the patched dashmap

#[derive(Clone, Debug, Default)]
pub struct DetState;
impl DetState {
    pub fn new() -> Self {
        DetState
    }
}
impl std::hash::BuildHasher for DetState {
    type Hasher = DetHasher;
    fn build_hasher(&self) -> DetHasher {
        DetHasher(0xcbf29ce484222325)
    }
}
pub struct DetHasher(u64);
impl std::hash::Hasher for DetHasher {
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3);
        }
    }
    fn finish(&self) -> u64 {
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
}

// ---------------------------------------------------------------------------------------------
// scheduling points at every branch of the code under test (see check.sh: only when it uses
// primitives that are not hooked)

static EDGES: AtomicUsize = AtomicUsize::new(0);

pub fn edges() -> bool {
    EDGES.load(Ordering::Relaxed) > 0
}

/// # Safety
/// called by the compiler's instrumentation
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(_: *mut u32, _: *mut u32) {
    EDGES.store(1, Ordering::Relaxed);
}
/// # Safety
/// called by the compiler's instrumentation
#[no_mangle]
pub unsafe extern "C-unwind" fn __sanitizer_cov_trace_pc_guard(_: *mut u32) {
    if !inside() && controlled() {
        point("branch");
    }
}
