//! Polling futures by hand: one poll per wake-up, so that a lost wake-up is a visible stall.
use crate::engine::Ctx;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicU32, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

pub struct Flag {
    pub woken: AtomicBool,
    pub wakes: AtomicU32,
}
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.woken.store(true, Ordering::SeqCst);
        self.wakes.fetch_add(1, Ordering::SeqCst);
        verif_sched::released(Arc::as_ptr(&self) as usize);
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.clone().wake()
    }
}
pub fn flag() -> (Arc<Flag>, Waker) {
    let f = Arc::new(Flag { woken: AtomicBool::new(true), wakes: AtomicU32::new(0) });
    let w = Waker::from(f.clone());
    (f, w)
}

pub struct Task<'a, T> {
    fut: Option<Pin<Box<dyn Future<Output = T> + 'a>>>,
    flag: Arc<Flag>,
    waker: Waker,
    pub out: Option<T>,
    pub polls: u32,
    pub limit: u32,
}

#[derive(Debug, PartialEq, Eq, Clone, Copy)]
pub enum Step {
    Done,
    /// waits and was not woken
    Waiting,
    /// polled more often than any progress explains
    Livelock,
}

impl<'a, T> Task<'a, T> {
    pub fn new(f: impl Future<Output = T> + 'a) -> Self {
        let (flag, waker) = flag();
        Task { fut: Some(Box::pin(f)), flag, waker, out: None, polls: 0, limit: 200_000 }
    }
    pub fn woken(&self) -> bool {
        self.fut.is_some() && self.flag.woken.load(Ordering::SeqCst)
    }
    /// One poll if woken.
    pub fn step(&mut self) -> Step {
        let Some(f) = self.fut.as_mut() else { return Step::Done };
        if !self.flag.woken.swap(false, Ordering::SeqCst) {
            return Step::Waiting;
        }
        self.poll_now()
    }
    fn poll_now(&mut self) -> Step {
        let f = self.fut.as_mut().unwrap();
        self.polls += 1;
        let mut cx = Context::from_waker(&self.waker);
        match f.as_mut().poll(&mut cx) {
            Poll::Ready(v) => {
                self.out = Some(v);
                self.fut = None;
                Step::Done
            }
            Poll::Pending => Step::Waiting,
        }
    }
    /// Runs until done or waiting without a wake-up.
    pub fn run(&mut self) -> Step {
        let mut n = 0;
        loop {
            match self.step() {
                Step::Done => return Step::Done,
                _ if self.woken() => {
                    n += 1;
                    if n > self.limit {
                        return Step::Livelock;
                    }
                }
                s => return s,
            }
        }
    }
    pub fn done(&self) -> bool {
        self.fut.is_none()
    }
    pub fn drop_future(&mut self) {
        self.fut = None;
    }
}

/// Runs a future that needs nothing but the mock transport.
pub fn block<T>(f: impl Future<Output = T>) -> Result<T, Step> {
    let mut t = Task::new(tokio::task::unconstrained(f));
    match t.run() {
        Step::Done => Ok(t.out.take().unwrap()),
        s => Err(s),
    }
}

/// Shared handle to the execution's choices, for use inside mocks.
#[derive(Clone, Copy)]
pub struct Sh(*mut Ctx);
unsafe impl Send for Sh {}
unsafe impl Sync for Sh {}
impl Sh {
    pub fn new(c: &mut Ctx) -> Sh {
        Sh(c)
    }
    #[allow(clippy::mut_from_ref)]
    fn c(&self) -> &mut Ctx {
        // one execution runs on one thread and mocks are only polled from it
        unsafe { &mut *self.0 }
    }
    pub fn choose(&self, n: usize) -> usize {
        self.c().choose(n)
    }
    pub fn deviate(&self, n: usize) -> usize {
        self.c().deviate(n)
    }
    pub fn flag(&self) -> bool {
        self.c().flag()
    }
    pub fn of<'a, T>(&self, s: &'a [T]) -> &'a T {
        &s[self.choose(s.len())]
    }
    pub fn note(&self, f: impl FnOnce() -> String) {
        self.c().note(f)
    }
    pub fn state<T: std::hash::Hash>(&self, t: &T) {
        self.c().state(t)
    }
    pub fn outcome<T: std::hash::Hash>(&self, t: &T) {
        self.c().outcome(t)
    }
    pub fn eval(&self, n: u64) {
        self.c().eval(n)
    }
    pub fn thorough(&self) -> bool {
        self.c().thorough()
    }
}

/// The preemption bound, with a scheduling point at every branch a smaller one.
pub fn preemptions(b: u32) -> u32 {
    if verif_sched::edges() {
        b.min(1)
    } else {
        b
    }
}

/// Runs the bodies as controlled threads, exploring the schedules: switching away from a thread
/// that could go on costs one deviation, every other choice is free.
pub fn threads(c: &mut Ctx, bodies: Vec<Box<dyn FnOnce() + Send>>) -> crate::engine::Res {
    let sh = Sh::new(c);
    let out = verif_sched::run(bodies, if verif_sched::edges() { 200_000 } else { 4000 }, &mut |enabled, running, label| {
        let k = if running.is_some() { sh.deviate(enabled.len()) } else { sh.choose(enabled.len()) };
        sh.note(|| format!("thread {} ({label})", enabled[k]));
        k
    });
    if let Some(p) = out.panics.first() {
        crate::fail!("panic: {p}");
    }
    if let Some(d) = out.deadlock {
        crate::fail!("deadlock: {d}");
    }
    c.eval(1);
    Ok(())
}

/// All merges of the threads' call lists (as sequences of thread numbers) until `f` says true.
pub fn some_merge(lens: &[usize], f: &mut dyn FnMut(&[usize]) -> bool) -> bool {
    fn go(left: &mut Vec<usize>, seq: &mut Vec<usize>, f: &mut dyn FnMut(&[usize]) -> bool) -> bool {
        if left.iter().all(|n| *n == 0) {
            return f(seq);
        }
        for t in 0..left.len() {
            if left[t] > 0 {
                left[t] -= 1;
                seq.push(t);
                if go(left, seq, f) {
                    return true;
                }
                seq.pop();
                left[t] += 1;
            }
        }
        false
    }
    go(&mut lens.to_vec(), &mut vec![], f)
}
