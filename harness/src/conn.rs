//! One agent connection on a mock transport under virtual time, and the reference model of what
//! its peer must see.
use crate::drv::{Step, Task};
use crate::engine::*;
use crate::io::{pipe, End, Peer};
use crate::svc::{echo, Maker, W};
use crate::wire::{self, Verdict};
use crate::{ensure, fail};
use haproxy_spoa::runtime::Builder;
use haproxy_spoa::{Connection, Runtime};
use haproxy_spop::{Action, AgentAck, Capability, Disconnect, Frame, HaproxyHello, Message, Version};
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::future::Future;
use std::rc::Rc;
use std::sync::Arc;
use std::time::Duration;
use tokio_util::sync::CancellationToken;

pub type Rt = Arc<Runtime<Maker, u32>>;

#[derive(Clone, Debug)]
pub struct Conf {
    pub versions: Vec<Version>,
    pub caps: Vec<Capability>,
    pub mfs: usize,
    pub mpt: u64,
}
pub const FRAG: Capability = Capability::Fragmentation;
pub const PIPE: Capability = Capability::Pipelining;
pub const ASYNC: Capability = Capability::Async;
pub const ALL: [Capability; 3] = [FRAG, PIPE, ASYNC];

impl Conf {
    pub fn new() -> Conf {
        Conf { versions: vec![Version::V2_0], caps: vec![PIPE], mfs: 16384, mpt: 1000 }
    }
    pub fn caps(mut self, c: &[Capability]) -> Conf {
        self.caps = c.to_vec();
        self
    }
    pub fn mfs(mut self, n: usize) -> Conf {
        self.mfs = n;
        self
    }
    pub fn mpt(mut self, n: u64) -> Conf {
        self.mpt = n;
        self
    }
    pub fn runtime(&self, w: &W) -> Rt {
        let mut b = Builder::new();
        for v in &self.versions {
            b = b.version(*v);
        }
        b.capabilities(self.caps.iter().cloned())
            .max_frame_size(self.mfs)
            .max_process_time(Duration::from_millis(self.mpt))
            .make_service(w.maker(), 42)
    }
}

pub struct Clock {
    pub rt: tokio::runtime::Runtime,
}
impl Clock {
    pub fn new() -> Rc<Clock> {
        Rc::new(Clock { rt: tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap() })
    }
}

pub struct Sim {
    pub clock: Rc<Clock>,
    pub w: W,
    pub peer: Peer,
    pub tok: CancellationToken,
    task: Task<'static, Result<(), String>>,
    pub name: &'static str,
    /// the ms this connection has lived, as far as `advance` knows
    pub now: u64,
}

impl Sim {
    pub fn new(conf: &Conf, w: W) -> Sim {
        let rt = conf.runtime(&w);
        Sim::on(Clock::new(), rt, w, CancellationToken::new(), "")
    }
    pub fn on(clock: Rc<Clock>, rt: Rt, w: W, tok: CancellationToken, name: &'static str) -> Sim {
        let (io, peer) = pipe();
        let t = tok.clone();
        let task = {
            let _g = clock.rt.enter();
            let mut conn = Connection::new(rt, io, t);
            Task::new(tokio::task::unconstrained(async move { conn.serve().await.map_err(|e| e.to_string()) }))
        };
        Sim { clock, w, peer, tok, task, name, now: 0 }
    }
    /// A connection whose serving is abandoned at these of the points where it waits (counted from
    /// 0), and taken up again at once or when `again` says so.
    pub fn resuming(conf: &Conf, w: W, points: Vec<usize>, again: Option<Rc<tokio::sync::Notify>>) -> (Sim, Rc<std::cell::Cell<usize>>) {
        use std::task::Poll;
        let rt = conf.runtime(&w);
        let clock = Clock::new();
        let tok = CancellationToken::new();
        let (io, peer) = pipe();
        let t = tok.clone();
        let count = Rc::new(std::cell::Cell::new(0));
        let waits = count.clone();
        let task = {
            let _g = clock.rt.enter();
            let mut conn = Connection::new(rt, io, t);
            Task::new(tokio::task::unconstrained(async move {
                loop {
                    let out = {
                        let mut f = std::pin::pin!(conn.serve());
                        std::future::poll_fn(|cx| match f.as_mut().poll(cx) {
                            Poll::Ready(r) => Poll::Ready(Some(r)),
                            Poll::Pending => {
                                let n = waits.get();
                                waits.set(n + 1);
                                if points.contains(&n) {
                                    Poll::Ready(None)
                                } else {
                                    Poll::Pending
                                }
                            }
                        })
                        .await
                    };
                    match (out, &again) {
                        (Some(r), _) => return r.map_err(|e| e.to_string()),
                        (None, Some(n)) => n.notified().await,
                        (None, None) => {}
                    }
                }
            }))
        };
        (Sim { clock, w, peer, tok, task, name: "", now: 0 }, count)
    }
    /// A connection driven by code of the caller's own.
    pub fn owned<F: Future<Output = Result<(), String>> + 'static>(conf: &Conf, w: W, tok: CancellationToken, f: impl FnOnce(Connection<crate::io::SimIo, Maker, u32>) -> F) -> Sim {
        let rt = conf.runtime(&w);
        let clock = Clock::new();
        let (io, peer) = pipe();
        let task = {
            let _g = clock.rt.enter();
            Task::new(tokio::task::unconstrained(f(Connection::new(rt, io, tok.clone()))))
        };
        Sim { clock, w, peer, tok, task, name: "", now: 0 }
    }
    /// Runs the connection until it waits for something.
    pub fn settle(&mut self) -> Res {
        let clock = self.clock.clone();
        let t = &mut self.task;
        // every byte may come alone
        t.limit = 200_000 + 64 * self.peer.0.borrow().sent as u32;
        let st = clock.rt.block_on(async {
            loop {
                let s = t.run();
                if s != Step::Waiting {
                    return s;
                }
                for _ in 0..2 {
                    tokio::task::yield_now().await;
                }
                if !t.woken() {
                    return s;
                }
            }
        });
        ensure!(st != Step::Livelock, "the connection spins");
        Ok(())
    }
    pub fn advance(&mut self, ms: u64) -> Res {
        let clock = self.clock.clone();
        clock.rt.block_on(tokio::time::advance(Duration::from_millis(ms)));
        self.now += ms;
        self.settle()
    }
    pub fn ended(&self) -> bool {
        self.task.done()
    }
    /// The connection's task is dropped.
    pub fn abandon(&mut self) {
        let _g = self.clock.rt.enter();
        self.task.drop_future();
    }
    pub fn result(&self) -> Option<&Result<(), String>> {
        self.task.out.as_ref()
    }
    pub fn send(&self, b: &[u8]) {
        self.peer.send(b)
    }
    pub fn send_frame(&self, body: &[u8]) {
        self.peer.send(&wire::with_len(body))
    }
    /// What the peer has received.
    pub fn got(&self) -> Result<(Vec<Frame>, usize), Violation> {
        frames_of(&self.peer.out())
    }
}

/// Parses what an agent sent: whole frames and the number of bytes of an incomplete one.
pub fn frames_of(out: &[u8]) -> Result<(Vec<Frame>, usize), Violation> {
    let (v, rest) = wire::split(out);
    let mut fs = vec![];
    for b in v {
        match wire::parse(b) {
            Verdict::Frame(f) | Verdict::Either(f) => fs.push(f),
            x => fail!("the agent sent a frame that is none: {b:02x?} ({x:?})"),
        }
    }
    Ok((fs, rest.len()))
}

#[derive(Clone, Debug)]
pub struct Hello {
    pub versions: Vec<Version>,
    pub mfs: u32,
    pub caps: Vec<Capability>,
    pub hc: Option<bool>,
    pub engine: Option<String>,
}
impl Hello {
    pub fn new() -> Hello {
        Hello { versions: vec![Version::V2_0], mfs: 16380, caps: vec![PIPE], hc: None, engine: Some("engine".into()) }
    }
    pub fn caps(mut self, c: &[Capability]) -> Hello {
        self.caps = c.to_vec();
        self
    }
    pub fn mfs(mut self, n: u32) -> Hello {
        self.mfs = n;
        self
    }
    pub fn hc(mut self, h: Option<bool>) -> Hello {
        self.hc = h;
        self
    }
}

#[derive(Clone, Debug)]
pub enum In {
    Hello(Hello),
    Notify { frag: bool, sid: u64, fid: u64, msgs: Vec<Message> },
    Disc(u32, String),
    /// any well-formed frame that may not come here
    Other(Frame),
    /// a frame that cannot be decoded, with the statuses that tell so
    Bad(Vec<u8>, &'static [u32]),
    /// a frame header announcing more than is allowed
    TooLong(u32),
    /// the peer goes away, leaving so many bytes of a frame behind
    Eof(Vec<u8>),
    Fail,
    /// these bytes, which mean that
    As(Vec<u8>, Box<In>),
}
pub fn nt(frag: bool, sid: u64, fid: u64, msgs: Vec<Message>) -> In {
    In::Notify { frag, sid, fid, msgs }
}

impl In {
    pub fn bytes(&self) -> Vec<u8> {
        match self {
            In::Hello(h) => wire::wire(&Frame::HaproxyHello(HaproxyHello {
                supported_versions: h.versions.clone(),
                max_frame_size: h.mfs,
                capabilities: h.caps.clone(),
                healthcheck: h.hc,
                engine_id: h.engine.clone(),
            })),
            In::Notify { frag, sid, fid, msgs } => wire::wire(&crate::p_codec::notify(*frag, *sid, *fid, msgs.clone())),
            In::Disc(s, m) => wire::wire(&Frame::HaproxyDisconnect(Disconnect { status_code: *s, message: m.clone() })),
            In::Other(f) => wire::wire(f),
            In::Bad(b, _) => wire::with_len(b),
            In::TooLong(n) => {
                let mut v = n.to_be_bytes().to_vec();
                v.extend([3u8; 40]);
                v
            }
            In::Eof(b) => b.clone(),
            In::Fail => vec![],
            In::As(b, _) => wire::with_len(b),
        }
    }
    pub fn brief(&self) -> String {
        match self {
            In::Hello(h) => format!("hello {:?} {} {:?} hc {:?}", h.versions.iter().map(|v| v.to_string()).collect::<Vec<_>>(), h.mfs, h.caps, h.hc),
            In::Notify { frag, sid, fid, msgs } => format!("notify {}({sid},{fid}) {} messages", if *frag { "fragment " } else { "" }, msgs.len()),
            In::Disc(s, _) => format!("disconnect {s}"),
            In::Other(f) => format!("{:?} frame", f.frame_type()),
            In::Bad(b, _) => format!("bad frame {:02x?}", &b[..b.len().min(24)]),
            In::TooLong(n) => format!("frame of {n} bytes"),
            In::Eof(b) => format!("end of stream after {} bytes of a frame", b.len()),
            In::Fail => "the stream fails".into(),
            In::As(b, i) => format!("{} as {:02x?}", i.brief(), &b[..b.len().min(24)]),
        }
    }
    pub fn ends_stream(&self) -> Option<End> {
        match self {
            In::Eof(_) => Some(End::Eof),
            In::Fail => Some(End::Fail(std::io::ErrorKind::ConnectionReset)),
            _ => None,
        }
    }
    pub fn feed(&self, s: &Sim) {
        let b = self.bytes();
        if !b.is_empty() {
            s.peer.send(&b);
        }
        if let Some(e) = self.ends_stream() {
            s.peer.end(e);
        }
    }
}

#[derive(Clone, Debug)]
pub enum Want {
    Hello { version: Version, mfs: u32, caps: BTreeSet<String> },
    Ack { sid: u64, fid: u64, actions: Vec<Action> },
    /// empty list: any status
    Disc { status: Vec<u32>, msg: Option<String> },
}

#[derive(Clone, Debug)]
pub enum Reply {
    Ok(Vec<Action>),
    Err(String),
    Timeout,
    /// the service's readiness failed
    Unready(String),
}

#[derive(Clone, Debug)]
pub enum St {
    New,
    Proc { m: u32, frag: bool },
    Closed,
}

pub struct Model {
    pub conf: Conf,
    pub st: St,
    pub queue: VecDeque<In>,
    pub table: BTreeMap<(u64, u64), Vec<Message>>,
    pub pending: Option<(u64, u64, Vec<Message>)>,
    pub want: Vec<Want>,
    pub calls: Vec<Vec<Message>>,
    pub makes: usize,
    /// the outcome of making the service: Err = its message
    pub make_fails: Option<String>,
    /// how call n is answered; None: `reply` will tell
    pub auto: Box<dyn FnMut(usize, &[Message]) -> Option<Reply>>,
}

impl Model {
    pub fn new(conf: &Conf) -> Model {
        Model {
            conf: conf.clone(),
            st: St::New,
            queue: VecDeque::new(),
            table: BTreeMap::new(),
            pending: None,
            want: vec![],
            calls: vec![],
            makes: 0,
            make_fails: None,
            auto: Box::new(|_, m| Some(Reply::Ok(echo(m)))),
        }
    }
    pub fn closed(&self) -> bool {
        matches!(self.st, St::Closed)
    }
    pub fn push(&mut self, i: In) {
        self.queue.push_back(i);
        self.run();
    }
    fn disc(&mut self, status: &[u32], msg: Option<String>) {
        self.want.push(Want::Disc { status: status.to_vec(), msg });
        self.st = St::Closed;
    }
    pub fn reply(&mut self, r: Reply) {
        let (sid, fid, _) = self.pending.take().expect("no call in hand");
        match r {
            Reply::Ok(actions) => {
                let n = wire::body(&Frame::AgentAck(AgentAck { fragmented: false, aborted: false, stream_id: sid, frame_id: fid, actions: actions.clone() })).len();
                let St::Proc { m, .. } = self.st else { unreachable!() };
                if n > m as usize {
                    self.disc(&[3], None);
                } else {
                    self.want.push(Want::Ack { sid, fid, actions });
                }
            }
            Reply::Err(e) => self.disc(&[99], Some(e)),
            Reply::Timeout => self.disc(&[2], None),
            Reply::Unready(_) => self.disc(&[], None),
        }
        self.run();
    }
    pub fn run(&mut self) {
        while self.pending.is_none() && !self.closed() {
            let Some(i) = self.queue.pop_front() else { break };
            self.one(i);
        }
    }
    fn one(&mut self, i: In) {
        match (self.st.clone(), i) {
            (_, In::Eof(_) | In::Fail) => self.st = St::Closed,
            (_, In::As(_, i)) => self.one(*i),
            (_, In::TooLong(_)) => self.disc(&[9, 3], None),
            (St::New, In::Hello(h)) => {
                let Some(v) = h.versions.iter().filter(|v| self.conf.versions.contains(v)).max_by_key(|v| (v.major, v.minor)) else {
                    return self.disc(&[8], None);
                };
                let m = (h.mfs as u64).min(self.conf.mfs as u64) as u32;
                let caps: Vec<Capability> = ALL.iter().filter(|c| h.caps.contains(c) && self.conf.caps.contains(c)).cloned().collect();
                if h.hc != Some(true) {
                    if let Some(e) = self.make_fails.clone() {
                        let _ = e;
                        self.makes += 1;
                        return self.disc(&[], None);
                    }
                    self.makes += 1;
                }
                self.want.push(Want::Hello { version: *v, mfs: m, caps: caps.iter().map(|c| wire::cap(c).to_string()).collect() });
                self.st = if h.hc == Some(true) { St::Closed } else { St::Proc { m, frag: caps.contains(&FRAG) } };
            }
            (St::New, In::Bad(_, s)) => self.disc(s, None),
            // whether a disconnect that comes first is unexpected or answered is left open
            (St::New, In::Disc(..)) => self.disc(&[0, 4], None),
            (St::New, _) => self.disc(&[4], None),
            (St::Proc { .. }, In::Bad(_, s)) => self.disc(s, None),
            (St::Proc { .. }, In::Hello(_) | In::Other(_)) => self.disc(&[4], None),
            (St::Proc { .. }, In::Disc(..)) => self.disc(&[0], None),
            (St::Proc { frag: agreed, .. }, In::Notify { frag, sid, fid, msgs }) => {
                if frag && !agreed {
                    return self.disc(&[10], None);
                }
                let t = self.table.entry((sid, fid)).or_default();
                t.extend(msgs);
                if !frag {
                    let all = self.table.remove(&(sid, fid)).unwrap();
                    let n = self.calls.len();
                    self.calls.push(all.clone());
                    let r = (self.auto)(n, &all);
                    self.pending = Some((sid, fid, all));
                    if let Some(r) = r {
                        self.reply(r);
                    }
                }
            }
            (St::Closed, _) => {}
        }
    }
    /// Compares what the peer has seen and the service was asked with the reference.
    pub fn check(&self, s: &Sim) -> Res {
        let (got, rest) = s.got()?;
        let nm = s.name;
        for (i, w) in self.want.iter().enumerate() {
            let Some(g) = got.get(i) else {
                fail!("{nm}frame {} is missing: expected {}, the peer received {:?}{}", i + 1, short_want(w), kinds(&got), if s.ended() { format!(", the connection has ended with {:?}", s.result()) } else { String::new() })
            };
            match_frame(g, w, self.limit()).map_err(|e| Violation(format!("{nm}frame {}: {}", i + 1, e.0)))?;
        }
        ensure!(got.len() == self.want.len(), "{nm}the peer received {} frames {:?}, expected {}", got.len(), kinds(&got), self.want.len());
        ensure!(rest == 0, "{nm}an incomplete frame of {rest} bytes was sent");
        ensure!(s.ended() == self.closed(), "{nm}the connection {} ({:?}), expected {}", if s.ended() { "has ended" } else { "goes on" }, s.result(), if self.closed() { "its end" } else { "it to go on" });
        if s.ended() {
            ensure!(s.peer.0.borrow().dropped, "{nm}the transport is kept open after the end");
        }
        Ok(())
    }
    /// The calls and makes of the whole world against this model alone.
    pub fn check_calls(&self, w: &W) -> Res {
        let calls: Vec<_> = w.calls().into_iter().map(|c| c.1).collect();
        ensure!(calls == self.calls, "the service was called {} times with {:?}, expected {} calls with {:?}", calls.len(), names(&calls), self.calls.len(), names(&self.calls));
        let g = w.get();
        ensure!(g.makes == self.makes, "{} services were made, expected {}", g.makes, self.makes);
        Ok(())
    }
    fn limit(&self) -> usize {
        match self.st {
            St::Proc { m, .. } => m as usize,
            _ => usize::MAX,
        }
    }
}

pub fn names(c: &[Vec<Message>]) -> Vec<Vec<&str>> {
    c.iter().map(|m| m.iter().map(|m| m.name.as_str()).collect()).collect()
}

pub fn kinds(fs: &[Frame]) -> Vec<String> {
    fs.iter()
        .map(|f| match f {
            Frame::AgentAck(a) => format!("ACK({},{}) {} actions", a.stream_id, a.frame_id, a.actions.len()),
            Frame::AgentDisconnect(d) => {
                let mut m = d.message.clone();
                if m.len() > 60 {
                    m = m.chars().take(60).collect::<String>() + "...";
                }
                format!("DISCONNECT {} {:?}", d.status_code, m)
            }
            Frame::AgentHello(h) => format!("HELLO {} {} {:?}", h.version, h.max_frame_size, h.capabilities.iter().map(|c| wire::cap(c).to_string()).collect::<BTreeSet<_>>()),
            f => format!("{:?}", f.frame_type()),
        })
        .collect()
}
fn short_want(w: &Want) -> String {
    match w {
        Want::Ack { sid, fid, actions } => format!("ACK({sid},{fid}) with {} actions", actions.len()),
        w => format!("{w:?}"),
    }
}

pub fn match_frame(g: &Frame, w: &Want, _limit: usize) -> Res {
    match (g, w) {
        (Frame::AgentHello(h), Want::Hello { version, mfs, caps }) => {
            let got: BTreeSet<String> = h.capabilities.iter().map(|c| wire::cap(c).to_string()).collect();
            ensure!(h.version == *version, "the hello reply has version {}, expected {version}", h.version);
            ensure!(h.max_frame_size == *mfs, "the hello reply has max-frame-size {}, expected {mfs}", h.max_frame_size);
            ensure!(got == *caps, "the hello reply has capabilities {got:?}, expected {caps:?}");
        }
        (Frame::AgentAck(a), Want::Ack { sid, fid, actions }) => {
            ensure!((a.stream_id, a.frame_id) == (*sid, *fid), "ACK for ({},{}), expected ({sid},{fid})", a.stream_id, a.frame_id);
            ensure!(!a.aborted, "the ACK is marked aborted");
            ensure!(!a.fragmented, "the ACK is not final");
            ensure!(a.actions == *actions, "the ACK carries {:?}, expected {actions:?}", a.actions);
        }
        (Frame::AgentDisconnect(d), Want::Disc { status, msg }) => {
            ensure!(status.is_empty() || status.contains(&d.status_code), "disconnect with status {} ({:?}), expected {status:?}", d.status_code, d.message);
            if let Some(m) = msg {
                ensure!(d.message.contains(m.as_str()), "disconnect with message {:?}, expected {m:?}", d.message);
            } else {
                ensure!(d.status_code == 0 || !d.message.is_empty(), "disconnect with status {} and no text", d.status_code);
            }
        }
        _ => fail!("{:?}, expected {}", kinds(std::slice::from_ref(g)), short_want(w)),
    }
    Ok(())
}

/// How the peer's frames reach the agent.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Deliver {
    /// each frame after the agent has settled
    Lockstep,
    /// everything at once
    Burst,
    /// one byte per read with a wait before each
    Drip,
    /// in pieces of 7 bytes, the next one sent when the agent has settled
    Pieces,
}
pub const DELIVER: [Deliver; 4] = [Deliver::Lockstep, Deliver::Burst, Deliver::Drip, Deliver::Pieces];

pub fn drip(p: &Peer) {
    let mut k = 0u32;
    p.0.borrow_mut().on_read = Some(Box::new(move |_, _| {
        k += 1;
        if k % 2 == 1 {
            crate::io::ReadAns::Pending
        } else {
            crate::io::ReadAns::Give(1)
        }
    }));
}

/// Feeds the inputs to both sides and compares after every quiet point.
pub fn play(s: &mut Sim, m: &mut Model, ins: &[In], how: Deliver, note: &dyn Fn(&In)) -> Res {
    match how {
        Deliver::Lockstep => {
            for i in ins {
                note(i);
                i.feed(s);
                m.push(i.clone());
                s.settle()?;
                m.check(s)?;
                if i.ends_stream().is_some() {
                    break;
                }
            }
        }
        Deliver::Burst | Deliver::Drip => {
            if how == Deliver::Drip {
                drip(&s.peer);
            }
            for i in ins {
                note(i);
                i.feed(s);
                m.push(i.clone());
                if i.ends_stream().is_some() {
                    break;
                }
            }
            s.settle()?;
            m.check(s)?;
        }
        Deliver::Pieces => {
            let mut all = vec![];
            let mut end = None;
            for i in ins {
                note(i);
                all.extend(i.bytes());
                m.push(i.clone());
                if let Some(e) = i.ends_stream() {
                    end = Some(e);
                    break;
                }
            }
            for p in all.chunks(7) {
                s.peer.send(p);
                s.settle()?;
            }
            if let Some(e) = end {
                s.peer.end(e);
                s.settle()?;
            }
            m.check(s)?;
        }
    }
    Ok(())
}

/// C08, the connection's part: what is sent against the agreed size.
pub fn c08(r: &mut crate::run::Run) {
    crate::p_conn::late(r, vec![crate::p_conn::Late::Reply(false), crate::p_conn::Late::Reply(true)]);
    crate::p_conn::agreed(r, true);
    use crate::svc::Ans;
    use haproxy_spop::{Scope, Typed};
    r.go(cfg("small", "agreed sizes from 0 to 255 bytes, by either side; notifications answered with ACKs of every size around it, or with errors: whatever else happens, nothing larger is sent after the hello"), |c| {
        let n = c.choose(256);
        let (p, a) = [(n as u32, 16384usize), (16380, n.max(100)), (n as u32, 300)][c.choose(3)];
        let agreed = (p as usize).min(a);
        let what = c.choose(5);
        let conf = Conf::new().mfs(a);
        for k in 0..9usize {
            let pad = (agreed + k).saturating_sub(16);
            let w = W::new();
            w.get().answer = Box::new(move |_, _, _| match what {
                0 => Ans::Ok(vec![Action::UnsetVar { scope: Scope::Request, name: "x".repeat(pad) }]),
                1 => Ans::Ok((0..pad / 4).map(|_| Action::UnsetVar { scope: Scope::Request, name: String::new() }).collect()),
                2 => Ans::Err("x".repeat(pad)),
                3 => Ans::Never,
                _ => Ans::Ok(vec![]),
            });
            let mut s = Sim::new(&conf, w.clone());
            for i in [In::Hello(Hello::new().mfs(p).caps(&[])), nt(false, 1, 1, vec![]), nt(false, 1, 2, vec![]), In::Disc(0, "bye".into())] {
                i.feed(&s);
                s.settle()?;
            }
            s.advance(20_000)?;
            let out = s.peer.out();
            for f in wire::split(&out).0.iter().skip(1) {
                ensure!(f.len() <= agreed, "a frame of {} bytes was sent, agreed are {agreed} (configured {a}, announced {p})", f.len());
            }
            c.eval(1);
        }
        c.state(&(p, a, what));
        Ok(())
    });
    let peers = [256u32, 257, 300, 1000, 4096, 16380, 16384, 70000];
    let agents = [256usize, 300, 1000, 16384, 70000];
    r.go(cfg("replies", "agreed sizes from 8 announced and 5 configured ones; ACKs of every size within 6 of the agreed one, of the configured one and twice as large, fast and slow transport, alone and after others; service errors with messages of every size near the limit, of several character widths"), |c| {
        let p = *c.of(&peers);
        let a = *c.of(&agents);
        let conf = Conf::new().mfs(a);
        let agreed = (p as usize).min(a);
        let err = c.flag();
        let base = [agreed, a, 2 * agreed, p as usize, 2 * a + 10];
        let target = *c.of(&base);
        let slow = c.flag();
        let before = c.choose(3);
        for d in 0..13usize {
            let n = target + d - 6;
            let w = W::new();
            let mut m = Model::new(&conf);
            let reply = if err {
                // a message of n - x bytes, some of them wide characters
                let unit = ["x", "ä", "\u{1F4A5}"][d % 3];
                Reply::Err(unit.repeat((n.saturating_sub(20)) / unit.len()))
            } else {
                let mk = |pad: usize| vec![Action::SetVar { scope: Scope::Request, name: "v".into(), value: Typed::Binary(vec![b'x'; pad].into()) }];
                let len = |a: Vec<Action>| wire::body(&Frame::AgentAck(AgentAck { fragmented: false, aborted: false, stream_id: 1, frame_id: 9, actions: a })).len();
                match (n.saturating_sub(40)..n).find(|x| len(mk(*x)) == n) {
                    Some(x) => Reply::Ok(mk(x)),
                    None => continue,
                }
            };
            let (r1, r2) = (reply.clone(), reply.clone());
            w.get().answer = Box::new(move |k, _, x| if k < before { Ans::Ok(echo(x)) } else { match r1.clone() { Reply::Ok(a) => Ans::Ok(a), Reply::Err(e) => Ans::Err(e), _ => Ans::Never } });
            m.auto = Box::new(move |k, x| Some(if k < before { Reply::Ok(echo(x)) } else {
                match r2.clone() {
                    // what does not fit may be shortened or replaced
                    Reply::Err(e) if e.len() + 40 > agreed => Reply::Unready(e),
                    r => r,
                }
            }));
            let mut s = Sim::new(&conf, w.clone());
            if slow {
                let mut k = 0u32;
                s.peer.0.borrow_mut().on_write = Some(Box::new(move |n| {
                    k += 1;
                    if k % 2 == 1 { crate::io::WriteAns::Wait } else { crate::io::WriteAns::Take(n.min(101)) }
                }));
            }
            let mut ins = vec![In::Hello(Hello::new().mfs(p))];
            ins.extend((0..before).map(|i| nt(false, 1, 1 + i as u64, crate::svc::tagged(i as u32, 1))));
            ins.push(nt(false, 1, 9, crate::svc::tagged(9, 1)));
            ins.push(nt(false, 1, 10, vec![]));
            if !err && n <= agreed {
                // a reply that fits is answered: the connection goes on and the next one fits too
            }
            for (i, x) in ins.iter().enumerate() {
                x.feed(&s);
                m.push(x.clone());
                s.settle()?;
                m.check(&s).map_err(|e| Violation(format!("agreed {agreed}, configured {a}, reply of {n} bytes ({}): {}", if err { "error" } else { "ACK" }, e.0)))?;
                if i == 0 {
                    continue;
                }
                let out = s.peer.out();
                for f in wire::split(&out).0 {
                    ensure!(f.len() <= agreed, "a frame of {} bytes was sent, agreed are {agreed} (configured {a}, announced {p})", f.len());
                }
            }
            c.eval(1);
            c.state(&(p, a, err, n, before));
        }
        Ok(())
    });
}
