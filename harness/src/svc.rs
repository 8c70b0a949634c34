//! The user's side: a service maker and services whose answers are scripted.
use crate::p_codec::msg;
use haproxy_spop::{Action, Message, Scope, Typed};
use std::collections::HashMap;
use std::fmt;
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};
use std::time::Duration;
use tower::Service;

#[derive(Clone, Debug, PartialEq)]
pub enum Ans {
    Ok(Vec<Action>),
    Err(String),
    /// after so many milliseconds
    After(u64, Box<Ans>),
    /// when `release` is called for this call
    Later,
    Never,
    /// panics when called
    PanicCall,
    /// panics when polled
    PanicPoll,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Mk {
    Ok,
    Err(String),
    Later,
    LaterErr(String),
    Panic,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Copy)]
pub enum Who {
    Maker,
    Svc(usize),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Rd {
    Ready,
    /// not now, but at once (wakes itself)
    Soon,
    /// until `set_ready`
    Wait,
    Err(String),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    Make { n: usize, state: u32 },
    Made { svc: usize },
    Call { n: usize, svc: usize, msgs: Vec<Message> },
    /// the answer of call n was handed back
    Answered { n: usize },
    /// the answer was not waited for
    Dropped { n: usize },
    SvcDropped { svc: usize },
    Unready(Who),
}

type AnsFn = Box<dyn FnMut(usize, usize, &[Message]) -> Ans + Send>;

pub struct World {
    pub log: Vec<Ev>,
    pub calls: usize,
    pub makes: usize,
    pub svcs: usize,
    pub answer: AnsFn,
    pub make: Box<dyn FnMut(usize) -> Mk + Send>,
    /// (who, number of calls it had so far)
    pub ready: Box<dyn FnMut(Who, usize) -> Rd + Send>,
    had: HashMap<Who, usize>,
    ready_wakers: HashMap<Who, Waker>,
    gates: HashMap<usize, (Option<Ans>, Option<Waker>)>,
    mk_gates: HashMap<usize, (bool, Option<Waker>)>,
    pub unready_calls: Vec<Who>,
    /// calls that were made and neither answered nor dropped
    pub in_hand: usize,
}

#[derive(Clone)]
pub struct W(pub Arc<Mutex<World>>);

impl W {
    pub fn new() -> W {
        W(Arc::new(Mutex::new(World {
            log: vec![],
            calls: 0,
            makes: 0,
            svcs: 0,
            answer: Box::new(|_, _, m| Ans::Ok(echo(m))),
            make: Box::new(|_| Mk::Ok),
            ready: Box::new(|_, _| Rd::Ready),
            had: HashMap::new(),
            ready_wakers: HashMap::new(),
            gates: HashMap::new(),
            mk_gates: HashMap::new(),
            unready_calls: vec![],
            in_hand: 0,
        })))
    }
    pub fn get(&self) -> std::sync::MutexGuard<'_, World> {
        self.0.lock().unwrap_or_else(|e| e.into_inner())
    }
    /// Forgets what has happened, keeping the scripts.
    pub fn forget(&self) {
        let mut g = self.get();
        g.log.clear();
        g.had.clear();
        g.ready_wakers.clear();
        g.gates.clear();
        g.mk_gates.clear();
        g.unready_calls.clear();
    }
    /// Services made and services dropped.
    pub fn services(&self) -> (usize, usize) {
        let g = self.get();
        let n = |f: fn(&Ev) -> bool| g.log.iter().filter(|e| f(e)).count();
        (n(|e| matches!(e, Ev::Made { .. })), n(|e| matches!(e, Ev::SvcDropped { .. })))
    }
    /// Answers call n, which was answered `Later`.
    pub fn release(&self, n: usize, a: Ans) {
        let w = {
            let mut g = self.get();
            let e = g.gates.entry(n).or_default();
            e.0 = Some(a);
            e.1.take()
        };
        if let Some(w) = w {
            w.wake()
        }
    }
    pub fn release_make(&self, n: usize) {
        let w = {
            let mut g = self.get();
            let e = g.mk_gates.entry(n).or_default();
            e.0 = true;
            e.1.take()
        };
        if let Some(w) = w {
            w.wake()
        }
    }
    /// Wakes whoever waits for readiness; the policy decides the next answer.
    pub fn wake_ready(&self, who: Who) -> bool {
        let w = self.get().ready_wakers.remove(&who);
        match w {
            Some(w) => {
                w.wake();
                true
            }
            None => false,
        }
    }
    pub fn calls(&self) -> Vec<(usize, Vec<Message>)> {
        self.get()
            .log
            .iter()
            .filter_map(|e| match e {
                Ev::Call { svc, msgs, .. } => Some((*svc, msgs.clone())),
                _ => None,
            })
            .collect()
    }
    pub fn maker(&self) -> Maker {
        Maker { w: self.clone(), ready: false }
    }
    fn poll_ready(&self, who: Who, cx: &mut Context<'_>) -> Rd {
        let mut g = self.get();
        let n = g.had.get(&who).copied().unwrap_or(0);
        let mut f = std::mem::replace(&mut g.ready, Box::new(|_, _| Rd::Ready));
        drop(g);
        let r = f(who, n);
        let mut g = self.get();
        g.ready = f;
        match r {
            Rd::Wait => {
                g.ready_wakers.insert(who, cx.waker().clone());
            }
            Rd::Soon => cx.waker().wake_by_ref(),
            _ => {}
        }
        r
    }
}

/// The actions a call is answered with by default: they spell out its messages.
pub fn echo(m: &[Message]) -> Vec<Action> {
    let mut v = vec![];
    for (i, m) in m.iter().enumerate() {
        v.push(Action::SetVar { scope: Scope::Session, name: format!("{i}.{}", m.name), value: Typed::Uint32(m.args.len() as u32) });
        for (k, a) in &m.args {
            v.push(Action::SetVar { scope: Scope::Transaction, name: k.clone(), value: a.clone() });
        }
    }
    v.push(Action::UnsetVar { scope: Scope::Request, name: "end".into() });
    v
}
/// A message list that identifies itself.
pub fn tagged(tag: u32, n: usize) -> Vec<Message> {
    (0..n).map(|i| msg(&format!("t{tag}.{i}"), &[("tag", Typed::Uint32(tag)), ("s", Typed::String(format!("x{i}")))])).collect()
}

/// Message lists that something careless might tidy up: equal ones, unsorted ones, empty ones.
pub fn odd_messages() -> Vec<Vec<Message>> {
    let u = |n| Typed::Uint32(n);
    let st = |x: &str| Typed::String(x.into());
    let a = msg("a", &[("k", u(1))]);
    let a2 = msg("a", &[("k", u(2))]);
    let b = msg("b", &[]);
    vec![
        vec![],
        vec![b.clone()],
        vec![b.clone(), b.clone()],
        vec![a.clone(), a.clone(), a.clone()],
        vec![b.clone(), a.clone(), b.clone()],
        vec![b.clone(), a.clone()],
        vec![a.clone(), a2.clone()],
        vec![a2, a.clone()],
        vec![msg("", &[])],
        vec![msg("", &[]), b.clone(), msg("", &[("", Typed::Null)])],
        vec![msg("m", &[("k", u(1)), ("k", u(1))])],
        vec![msg("m", &[("k", u(2)), ("k", u(1)), ("j", u(3))])],
        vec![msg("m", &[("", Typed::Null), ("x", Typed::Null), ("y", st("")), ("z", Typed::Binary(vec![].into()))])],
        vec![msg(" M\n\u{0}", &[("\u{e4}\u{1F4A5} ", st(" \n\u{0}"))])],
        vec![msg(&"n".repeat(240), &[(&"k".repeat(300), st(&"v".repeat(3000)))])],
        vec![msg("m", &[("t", Typed::Boolean(false)), ("f", Typed::Boolean(true)), ("i", Typed::Int32(-1)), ("l", Typed::Int64(i64::MIN)), ("q", Typed::Uint64(u64::MAX)), ("b", Typed::Binary(vec![0, 255, 0].into()))])],
        (0..17).map(|i| msg(["x", "a", "a"][i % 3], &[("i", u(i as u32 % 4))])).collect(),
        vec![a, b.clone(), msg("\u{c4}", &[]), msg("B", &[]), b],
        wide().iter().map(|t| msg(t, &[(t, st(t))])).collect(),
    ]
}
/// Action lists that something careless might tidy up.
pub fn odd_actions() -> Vec<Vec<Action>> {
    let set = |scope, name: &str, value: Typed| Action::SetVar { scope, name: name.into(), value };
    let un = |scope, name: &str| Action::UnsetVar { scope, name: name.into() };
    use Scope::*;
    let u = |n| Typed::Uint32(n);
    vec![
        vec![],
        vec![set(Session, "v", u(1))],
        vec![set(Session, "v", u(1)), set(Session, "v", u(1))],
        vec![set(Session, "v", u(1)), set(Session, "v", u(2))],
        vec![set(Session, "v", u(1)), set(Request, "v", u(1))],
        vec![set(Session, "v", u(1)), un(Session, "v")],
        vec![un(Session, "v"), set(Session, "v", u(1))],
        vec![un(Session, "v"), un(Session, "v")],
        vec![set(Process, "z", u(1)), un(Response, "a"), set(Transaction, "m", Typed::Null), un(Process, "z")],
        vec![set(Session, "", Typed::Null)],
        vec![un(Request, ""), set(Request, " \n\u{0}\u{e4}", Typed::String("".into()))],
        vec![set(Session, "v", Typed::Boolean(false)), set(Session, "w", Typed::Boolean(true)), set(Session, "x", Typed::Int32(-1)), set(Session, "y", Typed::Int64(i64::MIN))],
        vec![set(Response, &"n".repeat(250), Typed::Binary(vec![0; 3000].into()))],
        (0..19).map(|i| if i % 3 == 0 { un(Session, ["a", "b"][i % 2]) } else { set(Session, ["b", "a"][i % 2], u(i as u32 % 3)) }).collect(),
    ]
}
/// `l` and every ordered pair and triple of what occurs in it, cut in two or three at every place.
pub fn cuts<I: Clone + PartialEq>(lists: &[Vec<I>], triples: bool) -> Vec<Vec<Vec<I>>> {
    let mut pool: Vec<I> = vec![];
    for i in lists.iter().filter(|l| l.len() < 10).flatten() {
        if !pool.contains(i) {
            pool.push(i.clone());
        }
    }
    let mut all = lists.to_vec();
    for a in &pool {
        for b in &pool {
            all.push(vec![a.clone(), b.clone()]);
            if triples {
                all.extend(pool.iter().map(|c| vec![a.clone(), b.clone(), c.clone()]));
            }
        }
    }
    let mut v = vec![];
    for l in &all {
        for i in 0..=l.len() {
            v.push(vec![l[..i].to_vec(), l[i..].to_vec()]);
            if l.len() < 10 {
                v.extend((i..=l.len()).map(|j| vec![l[..i].to_vec(), l[i..j].to_vec(), l[j..].to_vec()]));
            }
        }
    }
    v
}
/// Texts in which every offset but the first is inside a character of some of them.
pub fn wide() -> Vec<String> {
    let mut v = vec![];
    for (c, n) in [("\u{e4}", 2), ("\u{20ac}", 3), ("\u{1F4A5}", 4)] {
        for shift in 0..n {
            v.push("x".repeat(shift) + &c.repeat(150));
        }
    }
    v
}
/// Error texts that something careless might tidy up or take for something else.
pub fn odd_texts() -> Vec<String> {
    let mut v: Vec<String> = ["", " ", "it failed", "first\nsecond", "\n", "\n x", " blanks around ", "tab\t, cr\r\nlf\r\n", "nul \u{0} inside", "\u{e4}\u{1F4A5}", "{} %s", "normal", "a timeout occurred", "I/O error", "frame is too big", "closed", "99", "retry, try again later", "a, b: c; d", "\"quoted\"", "Error(\"x\")"].iter().map(|s| s.to_string()).collect();
    v.push("x".repeat(239));
    v.push("x".repeat(240));
    v.push("long ".repeat(500));
    v.extend(wide());
    v
}

#[derive(Debug)]
pub struct MkErr(pub String);
impl fmt::Display for MkErr {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for MkErr {}
#[derive(Debug)]
pub struct SvcErr(pub String);
impl fmt::Display for SvcErr {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}

pub struct Maker {
    w: W,
    ready: bool,
}
impl fmt::Debug for Maker {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Maker")
    }
}

pub struct Svc {
    w: W,
    id: usize,
    ready: bool,
}
impl fmt::Debug for Svc {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Svc")
    }
}
impl Drop for Svc {
    fn drop(&mut self) {
        self.w.get().log.push(Ev::SvcDropped { svc: self.id });
    }
}

type Fut<T, E> = Pin<Box<dyn Future<Output = Result<T, E>> + Send>>;

impl Service<u32> for Maker {
    type Response = Svc;
    type Error = MkErr;
    type Future = Fut<Svc, MkErr>;
    fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), MkErr>> {
        match self.w.poll_ready(Who::Maker, cx) {
            Rd::Ready => {
                self.ready = true;
                Poll::Ready(Ok(()))
            }
            Rd::Err(e) => Poll::Ready(Err(MkErr(e))),
            _ => Poll::Pending,
        }
    }
    fn call(&mut self, state: u32) -> Self::Future {
        let mut g = self.w.get();
        if !self.ready {
            g.unready_calls.push(Who::Maker);
            g.log.push(Ev::Unready(Who::Maker));
        }
        self.ready = false;
        *g.had.entry(Who::Maker).or_default() += 1;
        let n = g.makes;
        g.makes += 1;
        g.log.push(Ev::Make { n, state });
        let m = (g.make)(n);
        drop(g);
        if m == Mk::Panic {
            panic!("the service maker panics");
        }
        let w = self.w.clone();
        Box::pin(async move {
            if matches!(m, Mk::Later | Mk::LaterErr(_)) {
                std::future::poll_fn(|cx| {
                    let mut g = w.get();
                    let e = g.mk_gates.entry(n).or_default();
                    if e.0 {
                        Poll::Ready(())
                    } else {
                        e.1 = Some(cx.waker().clone());
                        Poll::Pending
                    }
                })
                .await;
            }
            if let Mk::Err(e) | Mk::LaterErr(e) = m {
                return Err(MkErr(e));
            }
            let mut g = w.get();
            let id = g.svcs;
            g.svcs += 1;
            g.log.push(Ev::Made { svc: id });
            drop(g);
            Ok(Svc { w, id, ready: false })
        })
    }
}

struct InHand {
    w: W,
    n: usize,
    done: bool,
}
impl Drop for InHand {
    fn drop(&mut self) {
        let mut g = self.w.get();
        g.in_hand -= 1;
        let n = self.n;
        g.log.push(if self.done { Ev::Answered { n } } else { Ev::Dropped { n } });
    }
}

impl Service<Vec<Message>> for Svc {
    type Response = Vec<Action>;
    type Error = SvcErr;
    type Future = Fut<Vec<Action>, SvcErr>;
    fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), SvcErr>> {
        match self.w.poll_ready(Who::Svc(self.id), cx) {
            Rd::Ready => {
                self.ready = true;
                Poll::Ready(Ok(()))
            }
            Rd::Err(e) => Poll::Ready(Err(SvcErr(e))),
            _ => Poll::Pending,
        }
    }
    fn call(&mut self, msgs: Vec<Message>) -> Self::Future {
        let mut g = self.w.get();
        if !self.ready {
            g.unready_calls.push(Who::Svc(self.id));
            g.log.push(Ev::Unready(Who::Svc(self.id)));
        }
        self.ready = false;
        *g.had.entry(Who::Svc(self.id)).or_default() += 1;
        let n = g.calls;
        g.calls += 1;
        g.log.push(Ev::Call { n, svc: self.id, msgs: msgs.clone() });
        let mut f = std::mem::replace(&mut g.answer, Box::new(|_, _, _| Ans::Never));
        let a = f(n, self.id, &msgs);
        g.answer = f;
        g.in_hand += 1;
        drop(g);
        let h = InHand { w: self.w.clone(), n, done: false };
        if a == Ans::PanicCall {
            panic!("the service panics");
        }
        let w = self.w.clone();
        Box::pin(async move {
            let mut h = h;
            let mut a = a;
            loop {
                match a {
                    Ans::Ok(v) => {
                        h.done = true;
                        return Ok(v);
                    }
                    Ans::Err(e) => {
                        h.done = true;
                        return Err(SvcErr(e));
                    }
                    Ans::After(ms, b) => {
                        tokio::time::sleep(Duration::from_millis(ms)).await;
                        a = *b;
                    }
                    Ans::Later => {
                        a = std::future::poll_fn(|cx| {
                            let mut g = w.get();
                            let e = g.gates.entry(n).or_default();
                            match e.0.take() {
                                Some(x) => Poll::Ready(x),
                                None => {
                                    e.1 = Some(cx.waker().clone());
                                    Poll::Pending
                                }
                            }
                        })
                        .await;
                    }
                    Ans::PanicPoll => panic!("the answer panics"),
                    Ans::PanicCall | Ans::Never => std::future::pending().await,
                }
            }
        })
    }
}
