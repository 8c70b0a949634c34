//! C13..C16: dispatcher, jobs, acknowledgements, waiting consumers.
use crate::drv::{flag, preemptions, some_merge, threads, Flag, Sh};
use crate::engine::*;
use crate::p_codec::msg;
use crate::run::Run;
use crate::{ensure, fail};
use futures::Stream;
use haproxy_spoa::runtime::{Acker, Builder, Dispatcher, Processor, Runtime};
use haproxy_spoa::Error;
use haproxy_spop::{Action, AgentAck, HaproxyNotify, Message, Scope, Typed};
use std::collections::{BTreeMap, HashMap};
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::Ordering;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};
use tokio::sync::mpsc::error::TryRecvError;
use tokio::sync::mpsc::{unbounded_channel, UnboundedReceiver, UnboundedSender};
use tokio::sync::oneshot;

type Key = (u64, u64);
type JobRx = UnboundedReceiver<(Acker, UnboundedReceiver<Message>)>;

fn m_of(i: u32) -> Message {
    msg(&format!("m{i}"), &[("a", Typed::Uint32(i))])
}
fn of_m(m: &Message) -> u32 {
    match (&m.args[..], m.name.strip_prefix('m')) {
        ([(a, Typed::Uint32(i))], Some(n)) if a == "a" && n == i.to_string() => *i,
        _ => u32::MAX,
    }
}
fn notif(frag: bool, k: Key, items: &[u32]) -> HaproxyNotify {
    HaproxyNotify { fragmented: frag, stream_id: k.0, frame_id: k.1, messages: items.iter().map(|i| m_of(*i)).collect() }
}
/// Takes the ACK if there is one now; Err = the acknowledging side is gone without one.
fn ack_now(h: &mut oneshot::Receiver<AgentAck>) -> Result<Option<AgentAck>, ()> {
    match h.try_recv() {
        Ok(a) => Ok(Some(a)),
        Err(oneshot::error::TryRecvError::Empty) => Ok(None),
        Err(oneshot::error::TryRecvError::Closed) => Err(()),
    }
}

struct Job {
    key: Key,
    acker: Option<Acker>,
    rx: Option<UnboundedReceiver<Message>>,
    handle: oneshot::Receiver<AgentAck>,
    want: Vec<u32>,
    got: Vec<u32>,
    fin: bool,
    ended: bool,
}
impl Job {
    fn drain(&mut self) -> Res {
        let Some(rx) = self.rx.as_mut() else { return Ok(()) };
        loop {
            match rx.try_recv() {
                Ok(m) => {
                    ensure!(!self.ended, "the job of {:?} got a message after its stream had ended", self.key);
                    self.got.push(of_m(&m))
                }
                Err(TryRecvError::Empty) => break,
                Err(TryRecvError::Disconnected) => {
                    self.ended = true;
                    break;
                }
            }
        }
        ensure!(self.got == self.want, "the job of {:?} received messages {:?}, expected {:?}", self.key, self.got, self.want);
        ensure!(self.ended == self.fin, "the stream of the job of {:?} has {} although its final fragment was{} dispatched", self.key, if self.ended { "ended" } else { "not ended" }, if self.fin { "" } else { " not" });
        Ok(())
    }
}

struct Disp {
    d: Option<Dispatcher>,
    jobs_rx: Option<JobRx>,
    jobs: Vec<Job>,
    open: HashMap<Key, usize>,
    next: u32,
    /// jobs stay in the queue until `take`
    lazy: bool,
    /// messages repeat after so many
    pool: u32,
}
impl Disp {
    fn new() -> Disp {
        let (tx, rx) = unbounded_channel();
        Disp { d: Some(Dispatcher::new(tx)), jobs_rx: Some(rx), jobs: vec![], open: HashMap::new(), next: 0, lazy: false, pool: u32::MAX }
    }
    fn call(&mut self, sh: &Sh, frag: bool, k: Key, n: usize) -> Res {
        let items: Vec<u32> = (0..n as u32).map(|i| (self.next + i) % self.pool).collect();
        self.next += n as u32;
        sh.note(|| format!("{} {k:?} {items:?}", if frag { "fragment" } else { "final" }));
        let r = self.d.as_ref().unwrap().recieve_messages(notif(frag, k, &items));
        let opens = !self.open.contains_key(&k);
        match (r, opens, self.jobs_rx.is_some()) {
            (Err(_), true, false) => {
                return Ok(());
            }
            (Ok(_), true, false) => fail!("the call that opens {k:?} succeeded although the processing side is gone"),
            (Err(e), _, _) => fail!("dispatching for {k:?} failed: {e}"),
            (Ok(None), true, true) => fail!("the call that opens {k:?} returned no acknowledgement handle"),
            (Ok(Some(_)), false, _) => fail!("a call for the open notification {k:?} returned a handle"),
            (Ok(None), false, _) => {
                let j = self.open[&k];
                self.jobs[j].want.extend(&items);
            }
            (Ok(Some(h)), true, true) => {
                let job = match self.jobs_rx.as_mut().unwrap().try_recv() {
                    Ok(j) => j,
                    Err(_) => fail!("{k:?} was opened but no job was handed over"),
                };
                self.open.insert(k, self.jobs.len());
                self.jobs.push(Job { key: k, acker: Some(job.0), rx: Some(job.1), handle: h, want: items, got: vec![], fin: false, ended: false });
            }
        }
        if !frag {
            let j = self.open.remove(&k).unwrap();
            self.jobs[j].fin = true;
        }
        if let Some(rx) = self.jobs_rx.as_mut() {
            ensure!(rx.try_recv().is_err(), "an extra job was handed over by the call for {k:?}");
        }
        if !self.lazy {
            for j in &mut self.jobs {
                j.drain()?;
            }
        }
        Ok(())
    }
    /// ends the job and compares the ACK with its notification
    fn settle(&mut self, j: usize, how: usize) -> Res {
        let job = &mut self.jobs[j];
        let Some(mut a) = job.acker.take() else { return Ok(()) };
        ensure!(matches!(ack_now(&mut job.handle), Ok(None)), "{:?} was acknowledged before its job ended", job.key);
        a.set_var(Scope::Request, format!("v{j}"), j as u32);
        match how {
            0 => a.complete().is_ok(),
            1 => a.abort().is_ok(),
            _ => true,
        };
        drop(a);
        let want = AgentAck {
            fragmented: false,
            aborted: how == 1,
            stream_id: job.key.0,
            frame_id: job.key.1,
            actions: vec![Action::SetVar { scope: Scope::Request, name: format!("v{j}"), value: Typed::Uint32(j as u32) }],
        };
        let got = ack_now(&mut job.handle);
        ensure!(got == Ok(Some(want)), "the handle of {:?} yielded {got:?}", job.key);
        Ok(())
    }
    fn finish(&mut self, sh: &Sh) -> Res {
        let mut ks: Vec<Key> = self.open.keys().copied().collect();
        ks.sort();
        for k in ks {
            self.call(sh, false, k, 1)?;
        }
        for j in 0..self.jobs.len() {
            self.jobs[j].drain()?;
            self.settle(j, j % 3)?;
        }
        self.d = None;
        if let Some(rx) = self.jobs_rx.as_mut() {
            ensure!(matches!(rx.try_recv(), Err(TryRecvError::Disconnected)), "the stream of jobs does not end with the dispatcher");
        }
        Ok(())
    }
}

fn poll_now<S: Stream + Unpin>(s: &mut S) -> Poll<Option<S::Item>> {
    Pin::new(s).poll_next(&mut Context::from_waker(Waker::noop()))
}
fn runtime() -> Runtime<impl std::any::Any, u32> {
    let rt = Builder::new().make_service(crate::svc::W::new().maker(), 0);
    Arc::into_inner(rt).expect("a runtime nobody else holds")
}

pub fn c13(r: &mut Run) {
    let depth = r.q(5usize, 6);
    r.go(cfg("sequences", "every sequence of up to 5 (thorough: 6) of: dispatch a fragment or a final fragment with 0 to 2 messages for one of 3 notifications; the processing side goes away; a job's consumer goes away; a job is completed, aborted or dropped; after every call every job is compared with the reference"), |c| {
        let sh = Sh::new(c);
        let mut d = Disp::new();
        let keys: [Key; 3] = [(1, 1), (1, 2), (2, 1)];
        for i in 0..depth {
            let live = d.jobs.iter().filter(|j| j.rx.is_some()).count();
            let n = 19 + d.jobs_rx.is_some() as usize + (live > 0) as usize * 4;
            let k = sh.choose(n);
            match k {
                0 => break,
                1..=18 => {
                    let k = k - 1;
                    d.call(&sh, k % 2 == 0, keys[k / 6], k / 2 % 3)?;
                }
                19 if d.jobs_rx.is_some() => {
                    sh.note(|| "the processing side goes away".into());
                    d.jobs_rx = None
                }
                k => {
                    // what happens to the latest job
                    let j = d.jobs.iter().rposition(|j| j.rx.is_some()).unwrap();
                    match k - 19 - d.jobs_rx.is_some() as usize {
                        0 => {
                            sh.note(|| format!("the consumer of job {j} goes away"));
                            d.jobs[j].rx = None
                        }
                        how => {
                            sh.note(|| format!("job {j} ends by {how}"));
                            d.settle(j, how - 1)?
                        }
                    }
                }
            }
            let mut open: Vec<_> = d.open.keys().collect();
            open.sort();
            sh.state(&(i, open, d.jobs.iter().map(|j| (j.key, j.got.clone(), j.fin, j.rx.is_some(), j.acker.is_some())).collect::<Vec<_>>(), d.jobs_rx.is_some()));
        }
        sh.eval(1);
        d.finish(&sh)
    });
    let depth = r.q(4usize, 5);
    r.go(cfg("repeats", "every sequence of up to 4 (thorough: 5) calls over 2 notifications with 0 to 3 messages that are all equal or repeat after two"), |c| {
        let pool = 1 + c.choose(2) as u32;
        let sh = Sh::new(c);
        let keys: [Key; 2] = [(1, 1), (1, 2)];
        let mut d = Disp::new();
        d.pool = pool;
        for i in 0..depth {
            let k = sh.choose(17);
            if k == 0 {
                break;
            }
            let k = k - 1;
            d.call(&sh, k % 2 == 0, keys[k / 8], k / 2 % 4)?;
            sh.state(&(pool, i, d.jobs.iter().map(|j| (j.key, j.got.clone(), j.fin)).collect::<Vec<_>>()));
        }
        sh.eval(1);
        d.finish(&sh)
    });
    r.go(cfg("keys", "two notifications interleaved in every order for every pair of ids from 19 boundary values, then both ids used again"), |c| {
        let vals: Vec<u64> = vec![1, 2, 0, 239, 240, 255, 256, 65535, 65536, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, 1 << 33, 1 << 62, (1 << 63) + 1, u64::MAX - 1, u64::MAX];
        let a = (*c.of(&vals), *c.of(&vals));
        let order = c.choose(4);
        let sh = Sh::new(c);
        for s in &vals {
            for f in &vals {
                let b = (*s, *f);
                if a == b {
                    continue;
                }
                let mut d = Disp::new();
                let seqs = [[0, 0, 0, 1, 1], [0, 1, 0, 0, 1], [0, 1, 0, 1, 0], [1, 0, 0, 1, 0]];
                let (mut na, mut nb) = (0, 0);
                for x in seqs[order] {
                    if x == 0 {
                        na += 1;
                        d.call(&sh, na < 3, a, 1)?;
                    } else {
                        nb += 1;
                        d.call(&sh, nb < 2, b, 2)?;
                    }
                }
                d.call(&sh, false, a, 1)?;
                d.call(&sh, true, b, 0)?;
                d.finish(&sh)?;
                sh.eval(1);
            }
        }
        sh.state(&(a, order));
        Ok(())
    });
    r.go(cfg("contents", "19 message lists that something careless might tidy up, and every ordered pair (thorough: triple) of what occurs in them, cut into two and three fragments at every place; dispatched with a second notification of the same fragments in the opposite order, through a dispatcher made for the purpose and through that of a runtime"), |c| {
        let triples = c.thorough();
        let part = c.choose(16);
        let mut n = 0;
        for cut in crate::svc::cuts(&crate::svc::odd_messages(), triples).iter().skip(part).step_by(16) {
            let (d, mut p) = if n % 2 == 0 {
                let (tx, rx) = unbounded_channel();
                (Dispatcher::new(tx), Processor(rx))
            } else {
                let rt = runtime();
                (rt.dispatcher, rt.processor)
            };
            let send = |frag: bool, id: u64, l: &[Message]| match d.recieve_messages(HaproxyNotify { fragmented: frag, stream_id: 3, frame_id: id, messages: l.to_vec() }) {
                Ok(h) => Ok(h.is_some()),
                Err(e) => Err(Violation(format!("a fragment of {cut:?} is refused: {e}"))),
            };
            let mut beside = vec![];
            for (i, l) in cut.iter().enumerate() {
                ensure!(send(i + 1 < cut.len(), 1, l)? == (i == 0), "handles for the fragments of {cut:?}");
                let l = &cut[cut.len() - 1 - i];
                beside.extend_from_slice(l);
                ensure!(send(true, 2, l)? == (i == 0), "handles for the fragments of {cut:?}");
            }
            ensure!(!send(false, 2, &[])?, "a second handle for a notification of {beside:?}");
            for want in [cut.concat(), beside] {
                let Poll::Ready(Some((_acker, mut ms))) = poll_now(&mut p) else { fail!("no job for a notification of {want:?}") };
                let mut got = vec![];
                while let Poll::Ready(Some(m)) = poll_now(&mut ms) {
                    got.push(m);
                }
                ensure!(got == want, "the job of a notification of {want:?}, in fragments like {cut:?}, gets {got:?}");
                ensure!(matches!(poll_now(&mut ms), Poll::Ready(None)), "the messages of {want:?} do not end");
            }
            ensure!(poll_now(&mut p).is_pending(), "a third job for two notifications");
            drop(d);
            ensure!(matches!(poll_now(&mut p), Poll::Ready(None)), "the stream of jobs does not end with the dispatcher");
            n += 1;
        }
        c.state(&(part, n));
        c.eval(n);
        Ok(())
    });
    let (len, many) = r.q((200usize, 70000usize), (3000, 200_000));
    r.go(cfg("long", "one notification of n fragments of up to 3 messages for every n up to 200 (thorough: 3000); k notifications open at once, k up to 70000 (thorough: 200000), finished first to last, last to first and by halves; single notifications with up to 300 messages"), |c| {
        let sh = Sh::new(c);
        match c.choose(3) {
            0 => {
                let blk = c.choose(16);
                for n in (1..=len).filter(|n| n % 16 == blk && (*n < 300 || n % 89 == 0)) {
                    let mut d = Disp::new();
                    for i in 0..n {
                        d.call(&sh, i + 1 < n, (5, 9), i % 4)?;
                        if i == n / 2 {
                            d.call(&sh, true, (9, 5), 1)?;
                        }
                    }
                    d.finish(&sh)?;
                    sh.eval(1);
                    sh.state(&n);
                }
            }
            1 => {
                let order = c.choose(3);
                let ks = [1usize, 2, 10, 63, 64, 65, 128, 255, 256, 257, 1024, many];
                let k = *c.of(&ks);
                let key = |i: usize| ((i / 7) as u64, (i % 7) as u64 + 1);
                let mut d = Disp::new();
                d.lazy = true;
                for round in 0..2 {
                    for i in 0..k {
                        d.call(&sh, true, key(i), 1 + (i + round) % 2)?;
                    }
                    for j in 0..k {
                        let i = match order {
                            0 => j,
                            1 => k - 1 - j,
                            _ => if j % 2 == 0 { j / 2 } else { k - 1 - j / 2 },
                        };
                        d.call(&sh, false, key(i), j % 2)?;
                    }
                }
                d.finish(&sh)?;
                sh.eval(1);
                sh.state(&(order, k));
            }
            _ => {
                for n in 0..300 {
                    let mut d = Disp::new();
                    d.call(&sh, true, (1, 1), n)?;
                    d.call(&sh, false, (1, 2), n)?;
                    d.call(&sh, false, (1, 1), 300 - n)?;
                    d.finish(&sh)?;
                    sh.eval(1);
                    sh.state(&n);
                }
            }
        }
        Ok(())
    });
    let sizes: Vec<usize> = r.q(vec![0, 1, 255, 256, 1000, 1025, 4097], vec![0, 1, 2, 63, 255, 256, 1000, 1025, 4097, 10_001, 65_537]);
    r.go(cfg("big", "every three fragments of one notification with up to 4097 (thorough: 65537) messages each, another's fragments between them or not"), |c| {
        let n = [*c.of(&sizes), *c.of(&sizes), *c.of(&sizes)];
        let sh = Sh::new(c);
        let mut d = Disp::new();
        let other = sh.choose(2) == 1;
        for (i, n) in n.iter().enumerate() {
            d.call(&sh, i < 2, (5, 9), *n)?;
            if other {
                d.call(&sh, i < 2, (5, 8), 1)?;
            }
        }
        d.call(&sh, false, (5, 9), 2)?;
        d.finish(&sh)?;
        sh.eval(1);
        sh.state(&n);
        Ok(())
    });
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
struct Op {
    key: usize,
    frag: bool,
}
fn items(t: usize, i: usize) -> Vec<u32> {
    vec![(t * 100 + i * 10) as u32, (t * 100 + i * 10 + 1) as u32]
}

struct Wait {
    flag: Arc<Flag>,
    waker: Waker,
}
impl Wait {
    fn new() -> Wait {
        let (flag, waker) = flag();
        flag.woken.store(false, Ordering::SeqCst);
        Wait { flag, waker }
    }
    /// Polls until ready, sleeping (for the scheduler) until woken in between.
    fn on<T>(&self, mut poll: impl FnMut(&mut Context<'_>) -> Poll<T>) -> T {
        loop {
            let mut cx = Context::from_waker(&self.waker);
            if let Poll::Ready(v) = poll(&mut cx) {
                return v;
            }
            let f = self.flag.clone();
            verif_sched::wait_until(Arc::as_ptr(&f) as usize, "wait for a wake-up", || f.woken.swap(false, Ordering::SeqCst));
        }
    }
}

type Seen = Arc<Mutex<Vec<(Key, Vec<u32>)>>>;

/// Threads dispatch their programs; `consumer`: a further thread takes jobs and reads them to the
/// end meanwhile.
fn dispatch(c: &mut Ctx, lens: &[usize], keys: &[Key], shards: usize, consumer: bool, pre: bool) -> Res {
    let prog: Vec<Vec<Op>> = lens
        .iter()
        .map(|n| {
            (0..*n)
                .map(|_| {
                    let k = c.choose(keys.len() * 2);
                    Op { key: k / 2, frag: k % 2 == 0 }
                })
                .collect()
        })
        .collect();
    for w in prog.windows(2) {
        if w[0].len() == w[1].len() {
            let key = |p: &Vec<Op>| p.iter().map(|o| o.key * 2 + o.frag as usize).collect::<Vec<_>>();
            if key(&w[0]) > key(&w[1]) {
                return Ok(());
            }
        }
    }
    c.note(|| format!("{prog:?}"));
    verif_sched::set_shards(shards);
    let (tx, rx) = unbounded_channel();
    let d = Arc::new(Dispatcher::new(tx));
    let mut handles: Vec<(usize, usize, oneshot::Receiver<AgentAck>)> = vec![];
    if pre {
        let h = d.recieve_messages(notif(true, keys[0], &[9000])).map_err(|e| Violation(e.to_string()))?;
        handles.push((usize::MAX, 0, h.ok_or(Violation("no handle".into()))?));
    }
    type R = (usize, usize, Result<Option<oneshot::Receiver<AgentAck>>, String>);
    let log: Arc<Mutex<Vec<R>>> = Arc::default();
    let mut bodies: Vec<Box<dyn FnOnce() + Send>> = prog
        .iter()
        .enumerate()
        .map(|(t, p)| {
            let (d, log, p, keys) = (d.clone(), log.clone(), p.clone(), keys.to_vec());
            Box::new(move || {
                for (i, o) in p.iter().enumerate() {
                    let r = d.recieve_messages(notif(o.frag, keys[o.key], &items(t, i))).map_err(|e| e.to_string());
                    log.lock().unwrap().push((t, i, r));
                }
            }) as Box<dyn FnOnce() + Send>
        })
        .collect();
    let seen: Seen = Arc::default();
    let njobs = Arc::new(Mutex::new(0usize));
    let mut rx = Some(rx);
    if consumer {
        let (seen, mut p, njobs) = (seen.clone(), Processor(rx.take().unwrap()), njobs.clone());
        bodies.push(Box::new(move || {
            // every job that is there or still comes, each read as far as it goes
            let w = Wait::new();
            let mut live = vec![];
            loop {
                match w.on(|cx| {
                    let mut any = false;
                    match Pin::new(&mut p).poll_next(cx) {
                        Poll::Ready(Some((a, m))) => {
                            *njobs.lock().unwrap() += 1;
                            live.push((a, m, vec![]));
                            any = true;
                        }
                        Poll::Ready(None) => return Poll::Ready(()),
                        Poll::Pending => {}
                    }
                    for (_, m, v) in live.iter_mut() {
                        while let Poll::Ready(Some(x)) = Pin::new(&mut *m).poll_next(cx) {
                            v.push(of_m(&x));
                            any = true;
                        }
                    }
                    if any {
                        cx.waker().wake_by_ref();
                    }
                    Poll::Pending
                }) {
                    () => break,
                }
            }
            for (mut a, mut m, mut v) in live {
                while let Some(x) = w.on(|cx| Pin::new(&mut m).poll_next(cx)) {
                    v.push(of_m(&x));
                }
                a.set_var(Scope::Request, "n", v.len() as u32);
                let k = seen.lock().unwrap().len();
                seen.lock().unwrap().push(((0, k as u64), v));
            }
        }));
    }
    let d2 = if consumer { None } else { Some(d.clone()) };
    drop(d);
    threads(c, bodies)?;
    let mut res: Vec<Vec<Option<Result<bool, String>>>> = prog.iter().map(|p| vec![None; p.len()]).collect();
    for (t, i, r) in log.lock().unwrap().drain(..) {
        res[t][i] = Some(match r {
            Ok(h) => {
                let b = h.is_some();
                if let Some(h) = h {
                    handles.push((t, i, h));
                }
                Ok(b)
            }
            Err(e) => Err(e),
        });
    }
    for t in &res {
        for r in t {
            if let Some(Err(e)) = r {
                fail!("programs {prog:?}: a call failed: {e}");
            }
        }
    }
    // jobs: key, messages, ended
    let mut jobs: Vec<(Key, Vec<u32>, bool)> = vec![];
    if let Some(rx) = rx.as_mut() {
        while let Ok((mut a, mut m)) = rx.try_recv() {
            let mut v = vec![];
            let ended = loop {
                match m.try_recv() {
                    Ok(x) => v.push(of_m(&x)),
                    Err(TryRecvError::Empty) => break false,
                    Err(TryRecvError::Disconnected) => break true,
                }
            };
            // whose handle answers?
            a.set_var(Scope::Request, "x", 1u32);
            let _ = a.complete();
            let mut hit = None;
            for (t, i, h) in handles.iter_mut() {
                if let Ok(Some(ack)) = ack_now(h) {
                    ensure!(hit.is_none(), "one job acknowledged two calls");
                    let k = if *t == usize::MAX { keys[0] } else { keys[prog[*t][*i].key] };
                    ensure!((ack.stream_id, ack.frame_id) == k, "the ACK of a job carries {:?}, its call was for {k:?}", (ack.stream_id, ack.frame_id));
                    hit = Some(k);
                }
            }
            let Some(k) = hit else { fail!("programs {prog:?}: a job whose acknowledgement reaches nobody, messages {v:?}") };
            jobs.push((k, v, ended));
        }
    } else {
        for (_, v) in seen.lock().unwrap().iter() {
            jobs.push(((0, 0), v.clone(), true));
        }
    }
    // per thread and job: own order
    for (k, v, _) in &jobs {
        for t in 0..prog.len() {
            let own: Vec<u32> = v.iter().copied().filter(|x| *x / 100 == t as u32 && *x < 9000).collect();
            ensure!(own.windows(2).all(|w| w[0] < w[1]), "programs {prog:?}: the messages thread {t} dispatched for {k:?} arrived as {own:?}");
        }
    }
    jobs.iter_mut().for_each(|j| j.1.sort());
    jobs.sort();
    c.state(&(&prog, &jobs, &res.iter().map(|t| t.iter().map(|r| matches!(r, Some(Ok(true)))).collect::<Vec<_>>()).collect::<Vec<_>>()));
    let ok = some_merge(lens, &mut |seq| {
        let mut open: BTreeMap<Key, usize> = BTreeMap::new();
        let mut js: Vec<(Key, Vec<u32>, bool)> = vec![];
        if pre {
            open.insert(keys[0], 0);
            js.push((keys[0], vec![9000], false));
        }
        let mut at = vec![0; lens.len()];
        for &t in seq {
            let i = at[t];
            at[t] += 1;
            let o = prog[t][i];
            let k = keys[o.key];
            let opens = !open.contains_key(&k);
            if opens {
                open.insert(k, js.len());
                js.push((k, vec![], false));
            }
            if res[t][i] != Some(Ok(opens)) {
                return false;
            }
            let j = open[&k];
            js[j].1.extend(items(t, i));
            if !o.frag {
                js[j].2 = true;
                open.remove(&k);
            }
        }
        js.iter_mut().for_each(|j| {
            j.1.sort();
            if consumer {
                // the dispatcher is gone: every stream has ended; keys are not known here
                j.0 = (0, 0);
                j.2 = true;
            }
        });
        js.sort();
        js == jobs
    });
    ensure!(ok, "programs {prog:?} on {keys:?}: handles {res:?} and jobs {jobs:?} are those of no sequential order");
    if let Some(d) = d2 {
        // what is still open goes on in its job, everything else opens a new one
        let mut open: Vec<Key> = jobs.iter().filter(|j| !j.2).map(|j| j.0).collect();
        open.sort();
        for k in keys {
            let h = d.recieve_messages(notif(false, *k, &[7000])).map_err(|e| Violation(e.to_string()))?;
            ensure!(h.is_none() == open.contains(k), "after the threads {k:?} is {}", if h.is_none() { "open" } else { "closed" });
        }
    }
    Ok(())
}

pub fn c14(r: &mut Run) {
    let (b1, b2, b3, b4) = r.q((2u32, 1u32, 1u32, 1u32), (3, 2, 3, 2));
    let keysets: [[Key; 2]; 3] = [[(1, 1), (1, 2)], [(7, 1 << 32), (7, 1)], [(3, 4), (4, 3)]];
    r.go(cfg("two threads", "every pair of programs of 2 calls (fragment or final with 2 messages, 2 ids) on a fresh dispatcher or one with an open notification; every interleaving of map locks, channel sends and sender drops with up to 2 (thorough: 3) preemptions").bound(preemptions(b1)), |c| {
        let ks = *c.of(&keysets);
        let shards = [2, 4][c.choose(2)];
        let pre = c.flag();
        dispatch(c, &[2, 2], &ks, shards, false, pre)
    });
    r.go(cfg("two threads, three calls", "every pair of programs of 3 calls, 2 ids, 1 (thorough: 2) preemption").bound(preemptions(b2)), |c| dispatch(c, &[3, 3], &keysets[0], 4, false, false));
    r.go(cfg("three threads", "every triple of programs of 2, 1 and 1 calls, 2 ids, 1 (thorough: 3) preemption").bound(preemptions(b3)), |c| dispatch(c, &[2, 1, 1], &keysets[0], 4, false, false));
    r.go(cfg("processing side", "one or two dispatching threads with 2 calls each and a concurrent processing thread that waits for jobs and messages, 1 (thorough: 2) preemption").bound(preemptions(b4)), |c| {
        if c.flag() {
            dispatch(c, &[2, 1], &keysets[0], 4, true, false)
        } else {
            dispatch(c, &[2], &keysets[0], 4, true, false)
        }
    });
}

fn scopes() -> [Scope; 5] {
    [Scope::Process, Scope::Session, Scope::Transaction, Scope::Request, Scope::Response]
}

pub fn c15(r: &mut Run) {
    let depth = r.q3(6usize, 7, 9);
    r.go(cfg("sequences", "every sequence of up to 7 (thorough: 9) of: set a variable, unset a variable, complete, abort, drop the acker, drop the handle, poll the handle; with the ACK's content, the results and the wake-up of a waiting handle compared with the reference"), |c| {
        let ids = [(1u64, 1u64), (0, 1), (1 << 40, u64::MAX), (5, 2)];
        let id = *c.of(&ids);
        let sh = Sh::new(c);
        let (a, h) = Acker::new(id.0, id.1);
        let (mut a, mut h) = (Some(a), Some(h));
        let w = Wait::new();
        let mut waiting = false;
        let mut actions: Vec<Action> = vec![];
        // Some(ack) once ended
        let mut ended: Option<AgentAck> = None;
        let mut taken = false;
        for i in 0..depth {
            let k = sh.choose(8);
            sh.note(|| ["end", "set_var", "unset_var", "complete", "abort", "drop acker", "drop handle", "poll handle"][k].into());
            let mk = |ab: bool, actions: &Vec<Action>| AgentAck { fragmented: false, aborted: ab, stream_id: id.0, frame_id: id.1, actions: actions.clone() };
            match k {
                0 => break,
                1 | 2 => {
                    if let Some(a) = a.as_mut() {
                        let s = scopes()[i % 5];
                        let name = format!("v{}", i / 2);
                        let x = if k == 1 {
                            a.set_var(s, name.clone(), i as u32);
                            Action::SetVar { scope: s, name, value: Typed::Uint32(i as u32) }
                        } else {
                            a.unset_var(s, name.clone());
                            Action::UnsetVar { scope: s, name }
                        };
                        if ended.is_none() {
                            actions.push(x);
                        }
                    } else {
                        break;
                    }
                }
                3 | 4 => {
                    let Some(a) = a.as_mut() else { break };
                    let r = if k == 3 { a.complete() } else { a.abort() };
                    let open = ended.is_none() && h.is_some();
                    match r {
                        Ok(()) => ensure!(open, "ending a job {} succeeded", if ended.is_some() { "again" } else { "whose handle is gone" }),
                        Err(Error::Closed) => ensure!(!open, "ending an open job reports closed"),
                        Err(e) => fail!("ending a job reports {e:?}"),
                    }
                    if ended.is_none() {
                        ended = Some(mk(k == 4, &actions));
                    }
                }
                5 => {
                    if a.take().is_none() {
                        break;
                    }
                    if ended.is_none() {
                        ended = Some(mk(false, &actions));
                    }
                }
                6 => {
                    if h.take().is_none() {
                        break;
                    }
                }
                _ => {
                    let Some(hh) = h.as_mut() else { break };
                    if taken {
                        break;
                    }
                    let p = Pin::new(hh).poll(&mut Context::from_waker(&w.waker));
                    match (p, &ended) {
                        (Poll::Pending, None) => waiting = true,
                        (Poll::Ready(Ok(x)), Some(e)) => {
                            ensure!(x == *e, "the ACK is {x:?}, expected {e:?}");
                            taken = true;
                            waiting = false;
                        }
                        (p, e) => fail!("the handle yields {p:?}, expected {e:?}"),
                    }
                }
            }
            if waiting && ended.is_some() && h.is_some() {
                ensure!(w.flag.woken.load(Ordering::SeqCst), "the task waiting on the handle was not woken when the job ended");
            }
            sh.state(&(id, i, actions.len(), ended.as_ref().map(|e| e.aborted), a.is_some(), h.is_some(), taken));
        }
        drop(a);
        let e = ended.unwrap_or(AgentAck { fragmented: false, aborted: false, stream_id: id.0, frame_id: id.1, actions });
        if let Some(mut h) = h {
            if !taken {
                let g = ack_now(&mut h);
                ensure!(g == Ok(Some(e.clone())), "at the end the handle yields {g:?}, expected {e:?}");
            }
            ensure!(!matches!(ack_now(&mut h), Ok(Some(_))), "a second ACK for one job");
        }
        sh.eval(1);
        Ok(())
    });
    let depth = r.q3(4usize, 5, 6);
    r.go(cfg("actions", "every list of up to 5 (thorough: 6) variable actions: set (two values) and unset, 2 scopes, 2 names, so that variables are set and unset again; ended in each way"), |c| {
        let sh = Sh::new(c);
        let (mut a, mut h) = Acker::new(7, 8);
        let mut want = vec![];
        for i in 0..depth {
            let k = sh.choose(13);
            if k == 0 {
                break;
            }
            let k = k - 1;
            let scope = [Scope::Request, Scope::Session][k % 2];
            let name = ["x", "y"][k / 2 % 2];
            if k < 8 {
                let v = (k / 4) as u32;
                a.set_var(scope, name, v);
                want.push(Action::SetVar { scope, name: name.into(), value: Typed::Uint32(v) });
            } else {
                a.unset_var(scope, name);
                want.push(Action::UnsetVar { scope, name: name.into() });
            }
            sh.state(&(i, format!("{want:?}")));
        }
        let how = sh.choose(3);
        match how {
            0 => drop(a),
            1 => ensure!(a.complete().is_ok(), "complete failed"),
            _ => ensure!(a.abort().is_ok(), "abort failed"),
        }
        let g = ack_now(&mut h);
        let want = AgentAck { fragmented: false, aborted: how == 2, stream_id: 7, frame_id: 8, actions: want };
        ensure!(g == Ok(Some(want.clone())), "the handle yields {g:?}, expected {want:?}");
        sh.eval(1);
        Ok(())
    });
    r.go(cfg("values", "every id pair from the boundary values and every kind and number (0..40; 41..599, 5000 and 70000 once) of variable actions with 9 names (empty, blank, long, alike), ended in each way"), |c| {
        let vals = [0u64, 1, 239, 240, 65535, 1 << 31, (1 << 32) - 1, 1 << 32, 1 << 63, u64::MAX];
        let (s, f) = (*c.of(&vals), *c.of(&vals));
        let sh = Sh::new(c);
        let tv = crate::p_codec::typed_values();
        let long = "x".repeat(300);
        let names = ["same", "", "same", " ", "Same", "same ", "a.b", "\0", "", "ä", &long, "same"];
        // and, for one id pair, as many as no table of a fixed size holds
        let many: Vec<usize> = if (s, f) == (1, 1) { (41..600).chain([5000, 70_000]).collect() } else { vec![] };
        for n in (0..41usize).chain(many) {
            for how in 0..3 {
                let (mut a, mut h) = Acker::new(s, f);
                let mut want = vec![];
                for i in 0..n {
                    let sc = scopes()[i % 5];
                    if (i + how) % 3 == 2 {
                        let name = names.get(i / 3 % 16).map_or(format!("n{i}"), |n| n.to_string());
                        a.unset_var(sc, name.as_str());
                        want.push(Action::UnsetVar { scope: sc, name });
                    } else {
                        let v = tv[(i * 7 + n) % tv.len()].clone();
                        let name = names.get(i / 4 % 16).copied().unwrap_or("same");
                        a.set_var(sc, name, v.clone());
                        want.push(Action::SetVar { scope: sc, name: name.into(), value: v });
                    }
                }
                match how {
                    0 => drop(a),
                    1 => ensure!(a.complete().is_ok(), "complete failed"),
                    _ => ensure!(a.abort().is_ok(), "abort failed"),
                }
                let g = ack_now(&mut h);
                let want = AgentAck { fragmented: false, aborted: how == 2, stream_id: s, frame_id: f, actions: want };
                ensure!(g == Ok(Some(want.clone())), "the handle yields {g:?}, expected {want:?}");
                sh.eval(1);
                sh.state(&(s, f, n, how));
            }
        }
        Ok(())
    });
    let b = r.q(4u32, 10);
    r.go(cfg("dispatched", "a dispatched notification's job is ended in one thread (set variables, then complete, abort, panic or drop) while another waits on the handle or drops it, every interleaving up to 4 (thorough: 10) preemptions").bound(preemptions(b)), |c| {
        let how = c.choose(4);
        let nset = c.choose(3);
        let other = c.choose(3);
        let (tx, mut rx) = unbounded_channel();
        let d = Dispatcher::new(tx);
        let h = d.recieve_messages(notif(false, (3, 8), &[1])).map_err(|e| Violation(e.to_string()))?.ok_or(Violation("no handle".into()))?;
        let h2 = d.recieve_messages(notif(true, (8, 3), &[2])).map_err(|e| Violation(e.to_string()))?.ok_or(Violation("no handle".into()))?;
        let (mut a, m) = rx.try_recv().map_err(|_| Violation("no job".into()))?;
        let second = rx.try_recv().map_err(|_| Violation("no job".into()))?;
        let got: Arc<Mutex<Option<Result<AgentAck, ()>>>> = Arc::default();
        let ended: Arc<Mutex<Option<Result<(), bool>>>> = Arc::default();
        let (g2, e2) = (got.clone(), ended.clone());
        let bodies: Vec<Box<dyn FnOnce() + Send>> = vec![
            Box::new(move || {
                let _m = m;
                for i in 0..nset {
                    a.set_var(Scope::Session, "k", i as u32);
                }
                let r = match how {
                    0 => a.complete(),
                    1 => a.abort(),
                    2 => {
                        let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || {
                            let _a = a;
                            std::panic::resume_unwind(Box::new("job panics"));
                        }));
                        return;
                    }
                    _ => return,
                };
                *e2.lock().unwrap() = Some(r.map_err(|e| matches!(e, Error::Closed)));
            }),
            Box::new(move || {
                let mut h = h;
                match other {
                    0 => {
                        let w = Wait::new();
                        let r = w.on(|cx| Pin::new(&mut h).poll(cx));
                        *g2.lock().unwrap() = Some(r.map_err(|_| ()));
                    }
                    1 => drop(h),
                    _ => loop {
                        match h.try_recv() {
                            Ok(a) => {
                                *g2.lock().unwrap() = Some(Ok(a));
                                break;
                            }
                            Err(oneshot::error::TryRecvError::Closed) => {
                                *g2.lock().unwrap() = Some(Err(()));
                                break;
                            }
                            Err(_) => {
                                let w = Wait::new();
                                let r = w.on(|cx| Pin::new(&mut h).poll(cx));
                                *g2.lock().unwrap() = Some(r.map_err(|_| ()));
                                break;
                            }
                        }
                    },
                }
            }),
        ];
        threads(c, bodies)?;
        let got = got.lock().unwrap().clone();
        let ended = *ended.lock().unwrap();
        c.state(&(how, nset, other, format!("{got:?}{ended:?}")));
        if other != 1 {
            let want = AgentAck {
                fragmented: false,
                aborted: how == 1,
                stream_id: 3,
                frame_id: 8,
                actions: (0..nset).map(|i| Action::SetVar { scope: Scope::Session, name: "k".into(), value: Typed::Uint32(i as u32) }).collect(),
            };
            ensure!(got == Some(Ok(want.clone())), "the handle yielded {got:?}, expected {want:?}");
            ensure!(how > 1 || ended == Some(Ok(())), "ending the job reports {ended:?}");
        } else if let Some(Err(closed)) = ended {
            ensure!(closed, "ending a job whose handle is gone does not report closed");
        }
        let mut h2 = h2;
        ensure!(matches!(ack_now(&mut h2), Ok(None)), "another job's handle was answered");
        drop(second);
        ensure!(matches!(ack_now(&mut h2), Ok(Some(a)) if (a.stream_id, a.frame_id, a.aborted, a.actions.is_empty()) == (8, 3, false, true)), "a dropped job was not acknowledged");
        Ok(())
    });
}

pub fn c16(r: &mut Run) {
    let depth = r.q(8usize, 10);
    r.go(cfg("orders", "every sequence of up to 8 (thorough: 10) of: poll the stream of jobs, poll the stream of messages, both with either of two wakers, dispatch a fragment (with 0, 1 or 2 messages), a final one or another notification, drop the dispatcher; after each step a task whose last poll was pending must have been woken exactly when something became available"), |c| {
        let sh = Sh::new(c);
        let (tx, rx) = unbounded_channel();
        let mut d = Some(Dispatcher::new(tx));
        let mut p = Processor(rx);
        let ws = [Wait::new(), Wait::new(), Wait::new(), Wait::new()];
        let mut ackers = vec![];
        let mut streams = vec![];
        // reference: jobs in the queue, messages per job
        let mut queued: std::collections::VecDeque<usize> = Default::default();
        let mut jobs: Vec<(Vec<u32>, usize, bool)> = vec![];
        let mut open: Option<usize> = None;
        let mut handles = vec![];
        let mut next = 0;
        // the waker each stream waits with
        let (mut wait_p, mut wait_m): (Option<usize>, Option<(usize, usize)>) = (None, None);
        for i in 0..depth {
            let k = sh.choose(9);
            sh.note(|| ["stop", "poll jobs (waker 0)", "poll jobs (waker 1)", "poll messages (waker 0)", "poll messages (waker 1)", "fragment without messages", "fragment with 2 messages", "final with 1 message", "the dispatcher goes away"][k].into());
            match k {
                0 => break,
                1 | 2 => {
                    let w = k - 1;
                    ws[w].flag.woken.store(false, Ordering::SeqCst);
                    match Pin::new(&mut p).poll_next(&mut Context::from_waker(&ws[w].waker)) {
                        Poll::Ready(Some((a, m))) => {
                            let Some(_) = queued.pop_front() else { fail!("a job out of nothing") };
                            ackers.push(a);
                            streams.push(m);
                            wait_p = None;
                            wait_m = None;
                        }
                        Poll::Ready(None) => {
                            ensure!(queued.is_empty() && d.is_none(), "the stream of jobs ended early");
                            wait_p = None;
                        }
                        Poll::Pending => {
                            ensure!(queued.is_empty() && d.is_some(), "the stream of jobs is pending although {}", if d.is_some() { "a job is there" } else { "the sending side is gone" });
                            wait_p = Some(w);
                        }
                    }
                }
                3 | 4 => {
                    let w = k - 1;
                    let Some(m) = streams.last_mut() else { break };
                    let j = ackers.len() - 1;
                    ws[w].flag.woken.store(false, Ordering::SeqCst);
                    let (msgs, at, fin) = &mut jobs[j];
                    let over = *fin || d.is_none();
                    match Pin::new(m).poll_next(&mut Context::from_waker(&ws[w].waker)) {
                        Poll::Ready(Some(x)) => {
                            ensure!(msgs.get(*at) == Some(&of_m(&x)), "message {x:?} instead of number {at} of {msgs:?}");
                            *at += 1;
                            wait_m = None;
                        }
                        Poll::Ready(None) => {
                            ensure!(*at == msgs.len() && over, "the stream of messages ended early");
                            wait_m = None;
                        }
                        Poll::Pending => {
                            ensure!(*at == msgs.len() && !over, "the stream of messages is pending although {}", if *at < msgs.len() { "a message is there" } else { "the sending side is gone" });
                            wait_m = Some((j, w));
                        }
                    }
                }
                5..=7 => {
                    let Some(d) = d.as_ref() else { break };
                    let n = [0, 2, 1][k - 5];
                    let it: Vec<u32> = (next..next + n).collect();
                    next += n;
                    let h = d.recieve_messages(notif(k != 7, (1, 1), &it)).map_err(|e| Violation(e.to_string()))?;
                    if let Some(h) = h {
                        handles.push(h);
                        queued.push_back(jobs.len());
                        open = Some(jobs.len());
                        jobs.push((vec![], 0, false));
                    }
                    let Some(o) = open else { fail!("no handle for a new notification") };
                    jobs[o].0.extend(it);
                    if k == 7 {
                        jobs[o].2 = true;
                        open = None;
                    }
                }
                _ => {
                    if d.take().is_none() {
                        break;
                    }
                }
            }
            if let Some(w) = wait_p {
                if !queued.is_empty() || d.is_none() {
                    ensure!(ws[w].flag.woken.load(Ordering::SeqCst), "the task waiting for jobs was not woken when {}", if d.is_none() { "the dispatcher went away" } else { "a job was sent" });
                }
            }
            if let Some((j, w)) = wait_m {
                let (msgs, at, fin) = &jobs[j];
                if *at < msgs.len() || *fin || d.is_none() {
                    ensure!(ws[w].flag.woken.load(Ordering::SeqCst), "the task waiting for messages was not woken when {}", if *at < msgs.len() { "a message was sent" } else { "the sending side went away" });
                }
            }
            sh.state(&(i, queued.len(), &jobs, d.is_some(), wait_p, wait_m, streams.len()));
        }
        sh.eval(1);
        Ok(())
    });
    let b = r.q(2u32, 4);
    r.go(cfg("threads", "a consumer thread that sleeps until woken reads all jobs and their messages while one thread (or two) dispatches every program of 1 to 3 calls and goes away; every interleaving up to 2 (thorough: 3) preemptions").bound(preemptions(b)), |c| {
        let two = c.flag();
        let n = if two { 1 } else { 1 + c.choose(3) };
        let progs: Vec<Vec<(bool, usize)>> = (0..if two { 2 } else { 1 })
            .map(|_| (0..n).map(|_| { let k = c.choose(4); (k % 2 == 0, k / 2 * 2) }).collect())
            .collect();
        c.note(|| format!("{progs:?}"));
        let (tx, rx): (UnboundedSender<_>, JobRx) = unbounded_channel();
        let d = Arc::new(Dispatcher::new(tx));
        let mut bodies: Vec<Box<dyn FnOnce() + Send>> = vec![];
        let keep: Arc<Mutex<Vec<oneshot::Receiver<AgentAck>>>> = Arc::default();
        let mut want: Vec<Vec<Vec<u32>>> = vec![];
        for (t, p) in progs.iter().enumerate() {
            let mut js: Vec<Vec<u32>> = vec![];
            let mut open = false;
            for (i, (frag, n)) in p.iter().enumerate() {
                if !open {
                    js.push(vec![]);
                }
                js.last_mut().unwrap().extend((0..*n).map(|x| (t * 100 + i * 10 + x) as u32));
                open = *frag;
            }
            want.push(js);
            let (d, p, keep) = (d.clone(), p.clone(), keep.clone());
            bodies.push(Box::new(move || {
                for (i, (frag, n)) in p.iter().enumerate() {
                    let it: Vec<u32> = (0..*n).map(|x| (t * 100 + i * 10 + x) as u32).collect();
                    if let Ok(Some(h)) = d.recieve_messages(notif(*frag, (t as u64, 1), &it)) {
                        keep.lock().unwrap().push(h);
                    }
                }
            }));
        }
        drop(d);
        let got: Arc<Mutex<Vec<Vec<u32>>>> = Arc::default();
        let g2 = got.clone();
        bodies.push(Box::new(move || {
            let mut p = Processor(rx);
            let w = Wait::new();
            while let Some((_a, mut m)) = w.on(|cx| Pin::new(&mut p).poll_next(cx)) {
                let mut v = vec![];
                while let Some(x) = w.on(|cx| Pin::new(&mut m).poll_next(cx)) {
                    v.push(of_m(&x));
                }
                g2.lock().unwrap().push(v);
            }
        }));
        threads(c, bodies)?;
        let got = got.lock().unwrap().clone();
        c.state(&(&progs, &got));
        if two {
            let mut g = got.clone();
            let mut w: Vec<Vec<u32>> = want.concat();
            g.sort();
            w.sort();
            ensure!(g == w, "the consumer read {got:?}, dispatched were {want:?}");
        } else {
            ensure!(got == want[0], "the consumer read {got:?}, dispatched were {want:?}");
        }
        Ok(())
    });
}
