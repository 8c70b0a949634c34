//! C26..C28: the agent on the loopback interface, in a runtime of one thread whose clock only the
//! check moves.
use crate::conn::*;
use crate::drv::Sh;
use crate::engine::*;
use crate::run::Run;
use crate::svc::{echo, tagged, Ans, Ev, Maker, Mk, W};
use crate::wire;
use crate::{ensure, fail};
use haproxy_spoa::Agent;
use haproxy_spop::{Action, AgentAck, Error, Frame, Message, Scope, Typed, Version};
use std::cell::RefCell;
use std::io::{self, Read, Write};
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr, TcpListener, TcpStream};
use std::rc::Rc;
use std::sync::atomic::{AtomicU32, Ordering};
use std::sync::Arc;
use std::time::{Duration, Instant};
use tokio::task::JoinHandle;
use tokio_util::sync::CancellationToken;

/// Real time after which something that must come has not come.
const PATIENCE: Duration = Duration::from_secs(15);

pub struct Net {
    rt: tokio::runtime::Runtime,
    w: W,
    agent: Arc<Agent<Maker, u32>>,
    serve: Vec<JoinHandle<Result<(), String>>>,
    addr: SocketAddr,
    tok: CancellationToken,
}

impl Net {
    fn idle(conf: &Conf, w: W) -> Net {
        let l = listen();
        l.set_nonblocking(true).unwrap();
        Net::on(conf, w, l).expect("the agent cannot be made")
    }
    /// An agent, not serving yet, on this listener.
    fn on(conf: &Conf, w: W, l: TcpListener) -> Result<Net, String> {
        let rt = Net::clock();
        let addr = l.local_addr().unwrap();
        let agent = {
            let _g = rt.enter();
            Arc::new(Agent::new(conf.runtime(&w), l).map_err(|e| e.to_string())?)
        };
        let tok = agent.shutdown();
        Ok(Net { rt, w, agent, serve: vec![], addr, tok })
    }
    fn new(conf: &Conf, w: W) -> Net {
        let mut n = Net::idle(conf, w);
        n.start();
        n.turn(8);
        n
    }
    fn start(&mut self) {
        let a = self.agent.clone();
        self.serve.push(self.rt.spawn(async move { a.serve().await.map_err(|e| e.to_string()) }));
    }
    fn turn(&self, n: usize) {
        self.rt.block_on(async {
            for _ in 0..n {
                tokio::task::yield_now().await;
            }
        })
    }
    fn advance(&self, ms: u64) {
        self.rt.block_on(tokio::time::advance(Duration::from_millis(ms)));
        self.turn(4);
    }
    fn served(&self) -> usize {
        self.serve.iter().filter(|h| h.is_finished()).count()
    }
    fn client(&self) -> Client {
        self.client_at(self.addr)
    }
    fn client_at(&self, addr: SocketAddr) -> Client {
        Client::at(addr)
    }
    fn clock() -> tokio::runtime::Runtime {
        tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).event_interval(1).build().unwrap()
    }
    /// Lets everything run until `ok`; what must happen happens within PATIENCE.
    fn until(&self, what: &str, mut ok: impl FnMut() -> Result<bool, Violation>) -> Res {
        let t = Instant::now();
        let mut k = 0u32;
        loop {
            self.turn(if k == 0 { 6 } else { 2 });
            if ok()? {
                return Ok(());
            }
            k += 1;
            if k > 200 {
                std::thread::sleep(Duration::from_micros(200));
            }
            ensure!(t.elapsed() < PATIENCE, "{what}");
        }
    }
}

impl Drop for Net {
    fn drop(&mut self) {
        for h in &self.serve {
            h.abort();
        }
    }
}

/// Each execution has a loopback address of its own, so that sockets of earlier ones that linger
/// in the kernel do not use up the ports.
fn listen() -> TcpListener {
    listen_on(None)
}

fn listen_on(ip: Option<IpAddr>) -> TcpListener {
    static N: AtomicU32 = AtomicU32::new(0);
    let pid = std::process::id();
    for k in 0..1000u32 {
        let n = N.fetch_add(1, Ordering::Relaxed).wrapping_add(pid.wrapping_mul(40503));
        let own = if k < 900 { Ipv4Addr::new(127, 1 + (n >> 16 & 127) as u8, (n >> 8) as u8, 1 + (n & 127) as u8) } else { Ipv4Addr::LOCALHOST };
        let ip = ip.unwrap_or(own.into());
        if let Ok(l) = TcpListener::bind((ip, 0)) {
            return l;
        }
        std::thread::sleep(Duration::from_millis(1 + k as u64 / 100));
    }
    eprintln!("machinery error: no loopback listener can be made");
    std::process::exit(2)
}

pub struct Client {
    s: Option<TcpStream>,
    got: Vec<u8>,
    end: Option<io::ErrorKind>,
    /// does not read
    deaf: bool,
}
impl Client {
    fn at(addr: SocketAddr) -> Client {
        let Ok(s) = TcpStream::connect(addr) else {
            eprintln!("machinery error: no loopback connection can be made");
            std::process::exit(2)
        };
        s.set_nonblocking(true).unwrap();
        s.set_nodelay(true).unwrap();
        Client { s: Some(s), got: vec![], end: None, deaf: false }
    }
    fn send(&mut self, b: &[u8]) {
        let Some(s) = &mut self.s else { return };
        // the agent may be gone
        let _ = s.write_all(b);
    }
    fn poll(&mut self) {
        if self.end.is_some() || self.deaf {
            return;
        }
        let Some(s) = &mut self.s else { return };
        let mut b = [0u8; 65536];
        loop {
            match s.read(&mut b) {
                Ok(0) => {
                    self.end = Some(io::ErrorKind::UnexpectedEof);
                    return;
                }
                Ok(n) => self.got.extend(&b[..n]),
                Err(e) if e.kind() == io::ErrorKind::WouldBlock => return,
                Err(e) if e.kind() == io::ErrorKind::Interrupted => {}
                Err(e) => {
                    self.end = Some(e.kind());
                    return;
                }
            }
        }
    }
    fn leave(&mut self, reset: bool) {
        if let Some(s) = self.s.take() {
            if reset {
                set_linger0(&s);
            }
            drop(s);
        }
    }
}
impl Drop for Client {
    fn drop(&mut self) {
        // the execution is over: leave nothing behind in the kernel
        self.leave(true);
    }
}
fn set_linger0(s: &TcpStream) {
    let r = socket2_linger(s);
    debug_assert!(r);
}
fn socket2_linger(s: &TcpStream) -> bool {
    use std::os::fd::AsRawFd;
    #[repr(C)]
    struct Linger {
        onoff: i32,
        linger: i32,
    }
    extern "C" {
        fn setsockopt(fd: i32, level: i32, name: i32, val: *const Linger, len: u32) -> i32;
    }
    // SOL_SOCKET, SO_LINGER
    unsafe { setsockopt(s.as_raw_fd(), 1, 13, &Linger { onoff: 1, linger: 0 }, 8) == 0 }
}

/// A client and what it must see.
struct Pair {
    c: Client,
    m: Model,
    name: String,
    /// a last normal disconnect is allowed (shutdown)
    shut: bool,
}
impl Pair {
    fn new(n: &Net, conf: &Conf, name: String) -> Pair {
        Pair::new_at(n, conf, name, n.addr)
    }
    fn new_at(n: &Net, conf: &Conf, name: String, addr: SocketAddr) -> Pair {
        Pair { c: n.client_at(addr), m: Model::new(conf), name, shut: false }
    }
    fn give(&mut self, i: In) {
        self.c.send(&i.bytes());
        if let Some(_e) = i.ends_stream() {
            self.c.leave(matches!(i, In::Fail));
        }
        self.m.push(i);
    }
    /// Whether all has come that must come; a violation when something else has.
    fn ok(&mut self) -> Result<bool, Violation> {
        self.c.poll();
        if self.c.s.is_none() {
            return Ok(true);
        }
        let (got, rest) = frames_of(&self.c.got).map_err(|e| Violation(format!("{}: {}", self.name, e.0)))?;
        let want = &self.m.want;
        for (g, w) in got.iter().zip(want) {
            match_frame(g, w, usize::MAX).map_err(|e| Violation(format!("{}: {}", self.name, e.0)))?;
        }
        let bye = self.shut && got.len() == want.len() + 1 && matches!(got.last(), Some(Frame::AgentDisconnect(d)) if d.status_code == 0);
        ensure!(got.len() <= want.len() || bye, "{}: the peer received {:?}, expected {} frames", self.name, kinds(&got), want.len());
        if self.c.end.is_some() {
            ensure!(rest == 0, "{}: the connection ended after {rest} bytes of a frame", self.name);
            ensure!(got.len() >= want.len(), "{}: the connection ended after {:?}, {} frames were expected", self.name, kinds(&got), want.len());
            ensure!(self.m.closed(), "{}: the connection was ended by the agent", self.name);
        }
        Ok(got.len() >= want.len() && rest == 0 && self.c.end.is_some() == self.m.closed())
    }
    fn state(&self) -> String {
        format!("{}: received {:?}{}, expected {} frames{}", self.name, frames_of(&self.c.got).map(|f| kinds(&f.0)).unwrap_or_default(), if self.c.end.is_some() { " and the end" } else { "" }, self.m.want.len(), if self.m.closed() { " and the end" } else { "" })
    }
}
fn kinds_of(f: &[Frame]) -> Vec<String> {
    kinds(f)
}
fn all_ok<P: std::borrow::BorrowMut<Pair>>(n: &Net, ps: &mut [P]) -> Res {
    let p = RefCell::new(ps);
    let r = n.until("", || {
        let mut all = true;
        for x in p.borrow_mut().iter_mut() {
            all &= x.borrow_mut().ok()?;
        }
        Ok(all)
    });
    match r {
        Err(Violation(m)) if m.is_empty() => {
            let v: Vec<String> = p.borrow_mut().iter_mut().filter_map(|x| { let x: &mut Pair = std::borrow::BorrowMut::borrow_mut(x); if x.ok().unwrap_or(false) { None } else { Some(x.state()) } }).collect();
            fail!("what must come does not come: {}", v.join("; "))
        }
        r => r,
    }
}

fn call_of(w: &W, tag: &str) -> Option<usize> {
    w.get().log.iter().find_map(|e| match e {
        Ev::Call { n, msgs, .. } if msgs.first().is_some_and(|m| m.name == tag) => Some(*n),
        _ => None,
    })
}
fn first_select(sh: Sh) {
    let k = sh.choose(2) as u32;
    // fair: the branches take turns
    let mut i = k;
    verif_sched::set_select(Some(Box::new(move |n| {
        i = i.wrapping_add(1);
        i % n
    })));
}
fn tag(k: usize, i: usize) -> Vec<Message> {
    tagged((k * 100 + i) as u32, 1)
}
fn tag_name(k: usize, i: usize) -> String {
    format!("t{}.0", k * 100 + i)
}

// ---------------------------------------------------------------------------------------------

pub fn c26(r: &mut Run) {
    let depth = r.q(7usize, 8);
    let conns = r.q(3usize, 3);
    r.go(cfg("histories", "every history of 7 (thorough: 8) events of an agent with up to 3 connections: connect with or without a hello, notify with the answer outstanding, answer, client leaves, shutdown (also in the same instant as the event before), and after it more connects and notifications"), |c| {
        let sh = Sh::new(c);
        first_select(sh);
        let conf = Conf::new().mpt(3_600_000);
        let w = W::new();
        w.get().answer = Box::new(|_, _, _| Ans::Later);
        let n = Net::new(&conf, w.clone());
        let mut ps: Vec<Pair> = vec![];
        let mut sent: Vec<usize> = vec![];
        let mut late: Vec<Client> = vec![];
        let mut shut = false;
        let mut hist = vec![];
        for step in 0..depth {
            // kind, connection
            let mut can: Vec<(&str, usize)> = vec![];
            if !shut {
                can.push(("shutdown", 0));
                if ps.len() < conns {
                    can.push(("open", 0));
                    can.push(("connect", 0));
                }
            } else if late.is_empty() {
                can.push(("late connect", 0));
            }
            for (k, p) in ps.iter().enumerate() {
                if p.c.s.is_none() {
                    if p.m.pending.is_some() {
                        can.push(("answer", k));
                    }
                    continue;
                }
                if p.m.closed() {
                    continue;
                }
                if matches!(p.m.st, St::Proc { .. }) && sent[k] < 2 {
                    can.push(("notify", k));
                }
                if p.m.pending.is_some() {
                    can.push(("answer", k));
                }
                can.push(("leave", k));
            }
            if can.is_empty() {
                break;
            }
            let (what, k) = can[sh.choose(can.len())];
            sh.note(|| format!("{what} {k}"));
            hist.push((what, k));
            match what {
                "open" | "connect" => {
                    let mut p = Pair::new(&n, &conf, format!("connection {}", ps.len()));
                    if what == "open" {
                        p.give(In::Hello(Hello::new()));
                    }
                    ps.push(p);
                    sent.push(0);
                }
                "notify" => {
                    let i = nt(false, 1, 1 + sent[k] as u64, tag(k, sent[k]));
                    sent[k] += 1;
                    if shut {
                        // not taken up any more
                        ps[k].c.send(&i.bytes());
                    } else {
                        ps[k].m.auto = Box::new(|_, _| None);
                        ps[k].give(i);
                    }
                }
                "answer" => {
                    let msgs = ps[k].m.pending.clone().unwrap().2;
                    let Some(call) = call_of(&w, &msgs[0].name) else {
                        ensure!(ps[k].c.s.is_none(), "connection {k}: the service was not called");
                        ps[k].m.pending = None;
                        continue;
                    };
                    w.release(call, Ans::Ok(echo(&msgs)));
                    if shut {
                        ps[k].m.queue.clear();
                    }
                    ps[k].m.reply(Reply::Ok(echo(&msgs)));
                    if shut {
                        ps[k].m.st = St::Closed;
                    }
                }
                "leave" => ps[k].c.leave(false),
                "late connect" => {
                    let mut x = n.client();
                    x.send(&In::Hello(Hello::new()).bytes());
                    late.push(x);
                }
                _ => {
                    n.tok.cancel();
                    shut = true;
                    for p in ps.iter_mut() {
                        p.shut = true;
                        p.m.queue.clear();
                        if p.m.pending.is_none() {
                            p.m.st = St::Closed;
                        }
                    }
                }
            }
            // shutdown may come in the same instant
            if !shut && what != "answer" && step + 1 < depth && sh.flag() {
                sh.note(|| "in the same instant: shutdown".into());
                let calls = w.get().calls;
                n.tok.cancel();
                shut = true;
                n.turn(40);
                for p in ps.iter_mut() {
                    p.c.poll();
                    p.shut = true;
                    p.m.queue.clear();
                    if p.m.pending.is_none() {
                        p.m.st = St::Closed;
                    }
                }
                match what {
                    // whether the agent has seen it
                    "open" | "connect" => {
                        let p = ps.last_mut().unwrap();
                        p.m.st = St::Closed;
                        if p.c.got.is_empty() {
                            p.m.want.clear();
                        }
                        if p.c.end.is_none() && p.c.got.is_empty() && w.get().makes < ps.len() {
                            // not accepted: a late one
                            let p = ps.pop().unwrap();
                            sent.pop();
                            late.push(p.c);
                        }
                    }
                    "notify" => {
let this = tag_name(k, sent[k] - 1);
                        let pends = ps[k].m.pending.as_ref().is_some_and(|p| p.2[0].name == this);
                        if pends && call_of(&w, &this).is_none() {
                            ps[k].m.calls.pop();
                            ps[k].m.pending = None;
                            ps[k].m.st = St::Closed;
                        }
                        ensure!(w.get().calls <= calls + 1, "a notification was processed twice");
                    }
                    _ => {}
                }
            }
            all_ok(&n, &mut ps)?;
            let hand: Vec<bool> = ps.iter().map(|p| p.m.pending.is_some()).collect();
            let busy = ps.iter().any(|p| p.m.pending.is_some() && p.c.s.is_some());
            let gone = ps.iter().any(|p| p.m.pending.is_some() && p.c.s.is_none());
            if !shut {
                ensure!(n.served() == 0, "serving ended without a shutdown request");
            } else if busy {
                n.turn(10);
                ensure!(n.served() == 0, "serving ended although a notification is in hand");
            } else if !gone {
                n.until("serving does not end although every connection has ended", || Ok(n.served() == 1))?;
            }
            for x in late.iter_mut() {
                x.poll();
                ensure!(x.got.is_empty(), "a connection made after the shutdown request was served");
            }
            sh.state(&(&hist.last(), hand, shut, ps.iter().map(|p| (p.m.want.len(), p.c.end.is_some(), p.c.s.is_some())).collect::<Vec<_>>()));
        }
        // everything is answered
        if !shut {
            n.tok.cancel();
            for p in ps.iter_mut() {
                p.shut = true;
                p.m.queue.clear();
                if p.m.pending.is_none() {
                    p.m.st = St::Closed;
                }
            }
            all_ok(&n, &mut ps)?;
        }
        for p in ps.iter_mut() {
            if let Some((_, _, msgs)) = p.m.pending.clone() {
                p.m.queue.clear();
                if let Some(call) = call_of(&w, &msgs[0].name) {
                    w.release(call, Ans::Ok(echo(&msgs)));
                }
                p.m.reply(Reply::Ok(echo(&msgs)));
                p.m.st = St::Closed;
            }
        }
        all_ok(&n, &mut ps)?;
        n.until("serving does not end although every connection has ended", || Ok(n.served() == 1))?;
        let g = w.get();
        ensure!(g.in_hand == 0, "serving ended with {} calls in hand", g.in_hand);
        drop(g);
        for x in late.iter_mut() {
            x.poll();
            ensure!(x.got.is_empty(), "a connection made after the shutdown request was served");
        }
        sh.eval(1);
        Ok(())
    });
    r.go(cfg("serving", "shutdown before serving starts, with serving started twice, serving dropped and started again, by a clone of the token, with a child token cancelled only; idle, busy and fresh connections"), |c| {
        let sh = Sh::new(c);
        first_select(sh);
        let mode = c.choose(6);
        let kind = c.choose(3);
        let count = 1 + c.choose(3);
        let conf = Conf::new().mpt(3_600_000);
        let w = W::new();
        w.get().answer = Box::new(|_, _, _| Ans::Later);
        let mut n = Net::idle(&conf, w.clone());
        sh.note(|| format!("mode {mode}, {count} connections of kind {kind}"));
        if mode == 0 {
            n.tok.cancel();
            let mut x = n.client();
            x.send(&In::Hello(Hello::new()).bytes());
            n.start();
            n.until("serving does not end after a shutdown request made before it began", || Ok(n.served() == 1))?;
            x.poll();
            ensure!(x.got.is_empty() && w.get().makes == 0, "a connection was served after the shutdown request");
            sh.eval(1);
            return Ok(());
        }
        n.start();
        if mode == 1 {
            n.start();
        }
        n.turn(8);
        let mut ps = vec![];
        for k in 0..count {
            let mut p = Pair::new(&n, &conf, format!("connection {k}"));
            p.m.auto = Box::new(|_, _| None);
            if kind > 0 {
                p.give(In::Hello(Hello::new()));
            }
            if kind > 1 {
                p.give(nt(false, 1, 1, tag(k, 0)));
            }
            ps.push(p);
            all_ok(&n, &mut ps)?;
        }
        if mode == 2 {
            // serving is given up and taken up again
            n.serve[0].abort();
            n.until("serving cannot be given up", || Ok(n.serve[0].is_finished()))?;
            n.serve.clear();
            n.start();
            n.turn(8);
            let mut p = Pair::new(&n, &conf, "a new connection".into());
            p.give(In::Hello(Hello::new()));
            ps.push(p);
            all_ok(&n, &mut ps)?;
        }
        ensure!(n.served() == 0, "serving ended without a shutdown request");
        match mode {
            3 => n.tok.child_token().cancel(),
            4 => n.agent.shutdown().cancel(),
            _ => n.tok.cancel(),
        }
        if mode == 3 {
            n.turn(40);
            all_ok(&n, &mut ps)?;
            ensure!(n.served() == 0, "serving ended without a shutdown request");
            n.tok.cancel();
        }
        let busy = kind > 1;
        for p in ps.iter_mut() {
            p.shut = true;
            if p.m.pending.is_none() {
                p.m.st = St::Closed;
            }
        }
        all_ok(&n, &mut ps)?;
        let runs = n.serve.len();
        if busy {
            n.turn(20);
            ensure!(n.served() == 0, "serving ended although a notification is in hand");
            for k in 0..count {
                ensure!(n.served() == 0, "serving ended although a notification is in hand");
                let call = call_of(&w, &tag_name(k, 0)).ok_or(Violation("the service was not called".into()))?;
                w.release(call, Ans::Ok(vec![]));
                ps[k].m.reply(Reply::Ok(vec![]));
                ps[k].m.st = St::Closed;
                all_ok(&n, &mut ps)?;
            }
        }
        n.until("serving does not end although every connection has ended", || Ok(n.served() == runs))?;
        if mode == 5 {
            n.start();
            n.until("serving again after the end does not end", || Ok(n.served() == runs + 1))?;
        }
        ensure!(w.get().in_hand == 0, "serving ended with calls in hand");
        sh.state(&(mode, kind, count));
        sh.eval(1);
        Ok(())
    });
    r.go(cfg("two agents", "two agents of one program, with one runtime or one each, up to 2 connections each (fresh, idle or busy): the shutdown of one ends its own serving and connections only and waits for its own only; the other goes on and serves new connections until it is shut down itself"), |c| {
        let sh = Sh::new(c);
        first_select(sh);
        let conf = Conf::new().mpt(3_600_000);
        let w = W::new();
        w.get().answer = Box::new(|_, _, _| Ans::Later);
        let mut n = Net::idle(&conf, w.clone());
        let one = c.flag();
        let rtm = conf.runtime(&w);
        let mk = |rtm| {
            let l = listen();
            let addr = l.local_addr().unwrap();
            let _g = n.rt.enter();
            Agent::new(rtm, l).map(|a| (Arc::new(a), addr)).map_err(|e| Violation(format!("the agent cannot be made: {e}")))
        };
        let a = mk(rtm.clone())?;
        let b = mk(if one { rtm } else { conf.runtime(&w) })?;
        let tok = [a.0.shutdown(), b.0.shutdown()];
        let addr = [a.1, b.1];
        let serve = [a.0.clone(), b.0.clone()].map(|a| n.rt.spawn(async move { a.serve().await.is_ok() }));
        n.serve.clear();
        n.turn(8);
        let mut ps: [Vec<Pair>; 2] = [vec![], vec![]];
        let mut busy = [vec![], vec![]];
        for x in 0..2 {
            for k in 0..c.choose(3) {
                let kind = c.choose(3);
                let id = x * 10 + k;
                let mut p = Pair::new_at(&n, &conf, format!("connection {k} of agent {x}"), addr[x]);
                p.m.auto = Box::new(|_, _| None);
                if kind > 0 {
                    p.give(In::Hello(Hello::new()));
                }
                if kind > 1 {
                    p.give(nt(false, 1, 1, tag(id, 0)));
                    busy[x].push((ps[x].len(), id));
                }
                sh.note(|| format!("agent {x}: a connection of kind {kind}"));
                ps[x].push(p);
                all_ok(&n, &mut ps[x])?;
            }
        }
        let first = c.choose(2);
        sh.note(|| format!("agent {first} is shut down"));
        for x in [first, 1 - first] {
            ensure!(!serve[x].is_finished(), "the serving of agent {x} ended without a shutdown request");
            tok[x].cancel();
            for p in ps[x].iter_mut() {
                p.shut = true;
                if p.m.pending.is_none() {
                    p.m.st = St::Closed;
                }
            }
            n.turn(20);
            for x in 0..2 {
                all_ok(&n, &mut ps[x])?;
            }
            for (k, id) in std::mem::take(&mut busy[x]) {
                n.turn(4);
                ensure!(!serve[x].is_finished(), "the serving of agent {x} ended although a notification is in hand");
                let call = call_of(&w, &tag_name(id, 0)).ok_or(Violation("the service was not called".into()))?;
                w.release(call, Ans::Ok(vec![]));
                ps[x][k].m.reply(Reply::Ok(vec![]));
                ps[x][k].m.st = St::Closed;
                all_ok(&n, &mut ps[x])?;
            }
            n.until("serving does not end although every connection of the agent has ended", || Ok(serve[x].is_finished()))?;
            if x == first {
                let y = 1 - x;
                let mut p = Pair::new_at(&n, &conf, format!("a new connection of agent {y}"), addr[y]);
                p.m.auto = Box::new(|_, _| None);
                p.give(In::Hello(Hello::new()));
                ps[y].push(p);
                all_ok(&n, &mut ps[y])?;
                ensure!(!serve[y].is_finished(), "the serving of agent {y} ended without a shutdown request");
            }
        }
        sh.state(&(one, first, ps[0].len(), ps[1].len()));
        sh.eval(1);
        for h in &serve {
            h.abort();
        }
        Ok(())
    });
    r.go(cfg("accepting", "1 to 3 connections (silent, or with a hello, or with a notification too) that wait to be accepted, shutdown after each of the first 24 times that serving runs and before anything else does, or after the tasks of the connections have run once or twice more: when serving ends, all of them are closed"), |c| {
        let sh = Sh::new(c);
        first_select(sh);
        let count = 1 + c.choose(3);
        let kind = c.choose(3);
        let at = 1 + c.choose(24);
        let more = c.choose(3);
        let conf = Conf::new();
        let w = W::new();
        let l = listen();
        let addr = l.local_addr().unwrap();
        let rt = Net::clock();
        let agent = {
            let _g = rt.enter();
            Agent::new(conf.runtime(&w), l).map_err(|e| Violation(format!("the agent cannot be made: {e}")))?
        };
        let tok = agent.shutdown();
        let mut cs: Vec<Client> = (0..count)
            .map(|k| {
                let mut x = Client::at(addr);
                if kind > 0 {
                    x.send(&In::Hello(Hello::new()).bytes());
                }
                if kind > 1 {
                    x.send(&nt(false, 1, 1, tag(k, 0)).bytes());
                }
                x
            })
            .collect();
        let done = rt.block_on(async {
            let mut serve = Box::pin(agent.serve());
            let start = Instant::now();
            let mut k = 0;
            loop {
                let done = futures::poll!(serve.as_mut()).is_ready();
                k += 1;
                if done || start.elapsed() > PATIENCE {
                    return done.then_some(k);
                }
                if k == at {
                    for _ in 0..more {
                        tokio::task::yield_now().await;
                    }
                    tok.cancel();
                    continue;
                }
                if k > 500 {
                    std::thread::sleep(Duration::from_micros(100));
                }
                tokio::task::yield_now().await;
            }
        });
        let Some(done) = done else { fail!("serving does not end although shutdown was requested") };
        ensure!(done > at, "serving ended without a shutdown request");
        // the runtime does not run any more: what is open now was open when serving ended
        drop(agent);
        let t = Instant::now();
        for (k, x) in cs.iter_mut().enumerate() {
            while x.end.is_none() {
                x.poll();
                if t.elapsed() > Duration::from_millis(500) {
                    fail!("connection {k} is still open, serving has ended");
                }
            }
        }
        drop(rt);
        sh.state(&(count, kind, at, more));
        sh.eval(1);
        Ok(())
    });
    r.go(cfg("patience", "without a shutdown request an agent with up to 2 connections (fresh, in the middle of a hello, idle, with an open fragment, in the middle of a notification, busy) and its clock going on for 1 s to 30 days, once to three times: serving does not end, the connections go on and new ones are served; then shutdown"), |c| {
        let sh = Sh::new(c);
        first_select(sh);
        let gap = [1_000u64, 15_001, 60_000, 3_600_000, 30 * 86_400_000][c.choose(5)];
        let times = 1 + c.choose(3);
        let count = c.choose(3);
        let conf = Conf::new().caps(&ALL).mpt(u64::MAX / 4);
        let w = W::new();
        w.get().answer = Box::new(|_, _, _| Ans::Later);
        let mut n = Net::new(&conf, w.clone());
        let mut ps = vec![];
        let mut rest = vec![];
        for k in 0..count {
            let mut p = Pair::new(&n, &conf, format!("connection {k}"));
            p.m.auto = Box::new(|_, _| None);
            let ins = [In::Hello(Hello::new().caps(&ALL)), nt(true, 1, 1, tag(k, 0)), nt(false, 1, 1, tag(k, 1))];
            // what is sent before the pause, half of the next one included
            let at = c.choose(6);
            sh.note(|| format!("connection {k}: {} whole frames{}", at / 2, if at % 2 == 1 { " and half of one" } else { "" }));
            for i in &ins[..at / 2] {
                p.give(i.clone());
            }
            let next = ins[at / 2].bytes();
            let cut = if at % 2 == 1 { next.len() / 2 } else { 0 };
            p.c.send(&next[..cut]);
            rest.push((at / 2, next[cut..].to_vec(), ins));
            ps.push(p);
        }
        all_ok(&n, &mut ps)?;
        for t in 0..=times {
            let mut p = Pair::new(&n, &conf, format!("a connection after {t} times {gap} ms"));
            p.m.auto = Box::new(|_, _| None);
            p.give(In::Hello(Hello::new()));
            ps.push(p);
            all_ok(&n, &mut ps)?;
            ensure!(n.served() == 0, "serving ended without a shutdown request");
            if t < times {
                n.advance(gap);
                n.turn(20);
                all_ok(&n, &mut ps)?;
            }
        }
        for (k, (at, bytes, ins)) in rest.into_iter().enumerate() {
            ps[k].c.send(&bytes);
            for (j, i) in ins[at..].iter().enumerate() {
                if j > 0 {
                    ps[k].c.send(&i.bytes());
                }
                ps[k].m.push(i.clone());
            }
            let name = tag_name(k, 0);
            n.until("the notification does not reach the service", || Ok(call_of(&w, &name).is_some()))?;
            n.advance(gap);
            w.release(call_of(&w, &name).unwrap(), Ans::Ok(vec![]));
            ps[k].m.reply(Reply::Ok(vec![]));
            all_ok(&n, &mut ps)?;
        }
        for p in ps.iter_mut() {
            p.shut = true;
            p.m.st = St::Closed;
        }
        n.tok.cancel();
        all_ok(&n, &mut ps)?;
        n.until("serving does not end although every connection has ended", || Ok(n.served() == 1))?;
        sh.state(&(gap, times, count));
        sh.eval(1);
        Ok(())
    });
    r.go(cfg("drains", "at the shutdown request up to 2 connections wait for what may take any time: a peer that does not read a reply of 14 MB, a service that is being made, an answer due at the end of the processing time (limits 20 ms to 1 h), a handshake whose maker is not ready; the clock then runs for up to 30 days: serving ends once the last one has, and not before"), |c| {
        let sh = Sh::new(c);
        first_select(sh);
        let kinds = [c.choose(4), c.choose(5)];
        let mpt = *c.of(&[20u64, 1000, 15_000, 3_600_000]);
        let back = c.flag();
        if kinds == [0, 0] && mpt > 20 {
            return Ok(());
        }
        sh.note(|| format!("connections of kinds {kinds:?} with a processing time of {mpt} ms, released in {} order", if back { "reverse" } else { "their" }));
        let size = 14 << 20;
        let conf = Conf::new().mpt(mpt).mfs(16 << 20);
        let w = W::new();
        w.get().answer = Box::new(move |_, _, m| match m.first().map(|m| m.name.as_str()) {
            Some("big") => Ans::Ok(vec![Action::SetVar { scope: Scope::Session, name: "v".into(), value: Typed::Binary(vec![7; size].into()) }]),
            Some("late") => Ans::After(mpt - 1, Box::new(Ans::Ok(vec![]))),
            _ => Ans::Ok(vec![]),
        });
        let later = Arc::new(AtomicU32::new(0));
        let l2 = later.clone();
        w.get().make = Box::new(move |_| if l2.load(Ordering::Relaxed) == 1 { Mk::Later } else { Mk::Ok });
        let unready = Arc::new(AtomicU32::new(0));
        let u2 = unready.clone();
        w.get().ready = Box::new(move |who, _| if who == crate::svc::Who::Maker && u2.load(Ordering::Relaxed) == 1 { crate::svc::Rd::Wait } else { crate::svc::Rd::Ready });
        let n = Net::new(&conf, w.clone());
        let mut ps: Vec<Pair> = vec![];
        // those in a handshake come last: they may hold the maker
        let mut ks: Vec<usize> = kinds.iter().cloned().filter(|k| *k < 4).collect();
        ks.sort_by_key(|k| [0, 2, 1, 3][*k]);
        let mut made = vec![0; ks.len()];
        for (k, kind) in ks.iter().enumerate() {
            let mut p = Pair::new(&n, &conf, format!("connection {k}"));
            p.m.auto = Box::new(|_, _| None);
            if *kind == 1 {
                later.store(1, Ordering::Relaxed);
                made[k] = w.get().makes;
            }
            if *kind == 3 {
                unready.store(1, Ordering::Relaxed);
            }
            p.give(In::Hello(Hello::new().mfs(16 << 20)));
            if *kind == 1 || *kind == 3 {
                // no reply yet
                p.m.want.clear();
                ps.push(p);
                n.turn(20);
                continue;
            }
            ps.push(p);
            all_ok(&n, &mut ps)?;
            let p = ps.last_mut().unwrap();
            p.c.deaf = *kind == 0;
            let calls = w.get().calls;
            p.give(nt(false, 1, 1, marked(["big", "", "late"][*kind])));
            n.until("the service is not called", || Ok(w.get().calls > calls))?;
            n.turn(20);
        }
        n.tok.cancel();
        n.turn(20);
        ensure!(n.served() == 0, "serving ended with connections at work ({:?})", kinds);
        let mut waits: Vec<u64> = vec![1, mpt - 1];
        if ks.contains(&2) {
            // the answer comes now
            for (p, k) in ps.iter_mut().zip(&ks) {
                if *k == 2 {
                    p.m.reply(Reply::Ok(vec![]));
                    p.m.st = St::Closed;
                    p.shut = true;
                }
            }
            for ms in waits.drain(..) {
                n.advance(ms);
            }
            all_ok(&n, &mut ps.iter_mut().zip(&ks).filter(|(_, k)| **k == 2).map(|(p, _)| p).collect::<Vec<_>>())?;
        }
        let mut order: Vec<usize> = (0..ks.len()).filter(|i| ks[*i] != 2).collect();
        if back {
            order.reverse();
        }
        // a maker that becomes ready serves whoever waits for it, so these go together
        let mut ready = false;
        for i in order {
            if ks[i] == 3 && ready {
                continue;
            }
            ready |= ks[i] == 3;
            waits.extend([1, mpt, mpt + 1, 60_000, 3_600_000, 86_400_000 * 30]);
            for ms in waits.drain(..) {
                n.advance(ms);
                n.turn(4);
                ensure!(n.served() == 0, "serving ended although connection {i} of kind {} (of {ks:?}) has not", ks[i]);
            }
            match ks[i] {
                0 => {
                    ps[i].c.deaf = false;
                    let a = vec![Action::SetVar { scope: Scope::Session, name: "v".into(), value: Typed::Binary(vec![7; size].into()) }];
                    ps[i].m.reply(Reply::Ok(a));
                }
                1 => {
                    w.release_make(made[i]);
                }
                _ => {
                    unready.store(0, Ordering::Relaxed);
                    later.store(0, Ordering::Relaxed);
                    w.wake_ready(crate::svc::Who::Maker);
                }
            }
            ps[i].shut = true;
            ps[i].m.st = St::Closed;
            if ks[i] == 0 {
                all_ok(&n, &mut [&mut ps[i]])?;
            } else {
                // a handshake in hand may be finished or given up
                let p = &mut ps[i];
                n.until("a connection does not end after the shutdown", || {
                    p.c.poll();
                    Ok(p.c.end.is_some())
                })?;
                let (got, rest) = frames_of(&p.c.got)?;
                ensure!(rest == 0 && got.len() <= 2, "{}: received {:?} and {rest} bytes", p.name, kinds_of(&got));
            }
        }
        n.until("serving does not end although every connection has ended", || Ok(n.served() == 1))?;
        ensure!(w.get().in_hand == 0, "serving ended with calls in hand");
        sh.state(&(ks.clone(), mpt, back));
        sh.eval(1);
        Ok(())
    });
    let top = r.q(0usize, 900);
    r.go(cfg("many", "a shutdown of 1 to 24, 32 to 34, 63 to 65, 128, 129, 255 to 257 or 400 (thorough: also 900) connections, of which none, one (the first, the one in the middle, the last) or all have a notification in hand, each of up to 2 (0: fresh) notifications old, after as many that came and went or none: all idle ones are closed at once, the others are answered in order or in reverse, and serving ends after the last and not before"), |c| {
        let sh = Sh::new(c);
        let mut sizes: Vec<usize> = (1..=24).chain([32, 33, 34, 63, 64, 65, 128, 129, 255, 256, 257, 400]).collect();
        if top > 0 {
            sizes.push(top);
        }
        let count = *c.of(&sizes);
        let busy = c.choose(5);
        let old = count <= 65 && c.flag();
        let back = busy == 4 && c.flag();
        let notes = (count % 3) as u64;
        let conf = Conf::new().mpt(3_600_000);
        let w = W::new();
        w.get().answer = Box::new(|_, _, m| if m.first().is_some_and(|m| m.name == "h") || m.is_empty() { Ans::Ok(vec![]) } else { Ans::Later });
        let n = Net::new(&conf, w.clone());
        if old {
            let mut gone = vec![];
            for i in 0..count {
                let mut p = Pair::new(&n, &conf, format!("earlier connection {i}"));
                p.give(In::Hello(Hello::new()));
                if i % 2 == 0 {
                    p.give(In::Disc(0, "bye".into()));
                }
                gone.push(p);
            }
            all_ok(&n, &mut gone)?;
        }
        let mut ps: Vec<Pair> = vec![];
        for i in 0..count {
            let mut p = Pair::new(&n, &conf, format!("connection {i} of {count}"));
            p.m.auto = Box::new(|_, m| m.is_empty().then(|| Reply::Ok(vec![])));
            p.give(In::Hello(Hello::new()));
            for f in 1..=notes {
                p.give(nt(false, 1, f, vec![]));
            }
            ps.push(p);
            if i % 100 == 99 {
                all_ok(&n, &mut ps[i - 99..])?;
            }
        }
        all_ok(&n, &mut ps)?;
        let mut hand: Vec<usize> = match busy {
            0 => vec![],
            1 => vec![0],
            2 => vec![count / 2],
            3 => vec![count - 1],
            _ => (0..count).collect(),
        };
        let name = |i: usize| format!("m{i}");
        for i in &hand {
            ps[*i].give(nt(false, 2, 1, marked(&name(*i))));
        }
        n.until("the service is not called", || Ok(w.get().in_hand as usize == hand.len()))?;
        n.turn(8);
        ensure!(n.served() == 0, "serving ended without a shutdown request");
        n.tok.cancel();
        for (i, p) in ps.iter_mut().enumerate() {
            p.shut = true;
            if !hand.contains(&i) {
                p.m.st = St::Closed;
            }
        }
        all_ok(&n, &mut ps)?;
        n.turn(8 + 2 * count);
        if back {
            hand.reverse();
        }
        // whose call is whose
        let calls: std::collections::HashMap<String, usize> = w.get().log.iter().filter_map(|e| match e {
            Ev::Call { n, msgs, .. } => msgs.first().map(|m| (m.name.clone(), *n)),
            _ => None,
        }).collect();
        for (k, i) in hand.iter().enumerate() {
            ensure!(n.served() == 0, "serving ended with {} of {count} connections at work", hand.len() - k);
            if k + 1 == hand.len() {
                n.advance(60_000);
                ensure!(n.served() == 0, "serving ended with the last of {count} connections at work");
            }
            w.release(calls[&name(*i)], Ans::Ok(vec![]));
            ps[*i].m.reply(Reply::Ok(vec![]));
            ps[*i].m.st = St::Closed;
            all_ok(&n, &mut [&mut ps[*i]])?;
        }
        n.until("serving does not end although every connection has ended", || Ok(n.served() == 1))?;
        sh.state(&(count, busy, old, back));
        sh.eval(1);
        Ok(())
    });
}

// ---------------------------------------------------------------------------------------------

/// What one connection does to itself: the frames it gives, how it is answered.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Trouble {
    Calm,
    Garbage,
    TooLong,
    Disconnect,
    Reset,
    Leave,
    HalfFrame,
    SecondHello,
    NoVersion,
    ServiceError,
    PanicCall,
    PanicPoll,
    Never,
    Timeout,
    Deaf,
    TooBig,
    MakerError,
    MakerPanic,
    MakerStall,
    MakerUnready,
    OpenFragments,
    AgentFrame,
    Health,
}
use Trouble::*;
const TROUBLES: [Trouble; 23] = [
    Calm, Garbage, TooLong, Disconnect, Reset, Leave, HalfFrame, SecondHello, NoVersion, ServiceError, PanicCall, PanicPoll, Never, Timeout, Deaf, TooBig, MakerError, MakerPanic, MakerStall, MakerUnready, OpenFragments, AgentFrame, Health,
];
fn marked(name: &str) -> Vec<Message> {
    vec![crate::p_codec::msg(name, &[])]
}

pub fn c27(r: &mut Run) {
    let three = r.thorough();
    r.go(cfg("agent", "an agent with up to two connections (thorough: also a third with 5 kinds) getting into one of 22 kinds of trouble each at every point of another's script of a handshake, a fragmented and two plain notifications, and a third that connects afterwards; loopback sockets"), |c| {
        let sh = Sh::new(c);
        first_select(sh);
        let mut ts = vec![*c.of(&TROUBLES)];
        ts.push(*c.of(&TROUBLES));
        if three && ts[1] != Calm {
            ts.push([Calm, Garbage, PanicCall, MakerPanic, Reset, Deaf][c.choose(6)]);
        }
        let at: Vec<usize> = ts.iter().map(|t| if *t == Calm { 0 } else { sh.choose(6) }).collect();
        sh.note(|| format!("{ts:?} at {at:?}"));
        let conf = Conf::new().caps(&ALL).mpt(1000);
        let w = W::new();
        let big = vec![haproxy_spop::Action::SetVar { scope: haproxy_spop::Scope::Request, name: "big".into(), value: haproxy_spop::Typed::Binary(vec![7u8; 16000].into()) }];
        let big2 = big.clone();
        w.get().answer = Box::new(move |_, _, m| match m.first().map(|m| m.name.as_str()) {
            Some("err") => Ans::Err("broken".into()),
            Some("panic-call") => Ans::PanicCall,
            Some("panic-poll") => Ans::PanicPoll,
            Some("never") => Ans::Never,
            Some("later") => Ans::Later,
            Some("big") => Ans::Ok(big2.clone()),
            _ => Ans::Ok(echo(m)),
        });
        // the service maker serves connections in order of their hellos; state of the next one
        let next_make = Arc::new(std::sync::Mutex::new(Mk::Ok));
        let nm = next_make.clone();
        w.get().make = Box::new(move |_| std::mem::replace(&mut *nm.lock().unwrap(), Mk::Ok));
        let n = Net::new(&conf, w.clone());
        let mut ps: Vec<Pair> = vec![Pair::new(&n, &conf, "the other connection".into())];
        let mut bad: Vec<Client> = vec![];
        let script = [
            In::Hello(Hello::new().caps(&ALL)),
            nt(true, 1, 1, tag(1, 0)),
            nt(false, 1, 2, tag(1, 1)),
            nt(false, 1, 1, tag(1, 2)),
            nt(false, 2, 2, tag(1, 3)),
        ];
        let good = |n: &Net, ps: &mut Vec<Pair>, name: &str| -> Res {
            let mut p = Pair::new(n, &conf, name.into());
            p.give(In::Hello(Hello::new()));
            p.give(nt(false, 1, 1, tag(2, 0)));
            ps.push(p);
            all_ok(n, ps)
        };
        let health = |n: &Net, bad: &mut Vec<Client>| {
            let mut x = n.client();
            x.send(&In::Hello(Hello::new().hc(Some(true))).bytes());
            bad.push(x);
        };
        let mut timeouts = false;
        let mut do_trouble = |n: &Net, t: Trouble, bad: &mut Vec<Client>| -> Res {
            let mut x = n.client();
            let hello = In::Hello(Hello::new().caps(&ALL).mfs(if t == TooBig { 300 } else { 16384 })).bytes();
            match t {
                Calm => return Ok(()),
                Health => {
                    health(n, bad);
                    return Ok(());
                }
                NoVersion => x.send(&In::Hello(Hello { versions: vec![Version { major: 9, minor: 9 }], ..Hello::new() }).bytes()),
                MakerError => *next_make.lock().unwrap() = Mk::Err("no service".into()),
                MakerPanic => *next_make.lock().unwrap() = Mk::Panic,
                MakerStall => *next_make.lock().unwrap() = Mk::Later,
                MakerUnready => {
                    // the maker reports failure once
                    let mut once = true;
                    w.get().ready = Box::new(move |who, _| {
                        if who == crate::svc::Who::Maker && once {
                            once = false;
                            crate::svc::Rd::Err("not today".into())
                        } else {
                            crate::svc::Rd::Ready
                        }
                    });
                }
                _ => {}
            }
            if t != NoVersion {
                x.send(&hello);
            }
            let mut k = 0;
            n.until("the troubled connection's handshake is not taken up", || {
                k += 1;
                x.poll();
                Ok(!x.got.is_empty() || x.end.is_some() || k > 3 && matches!(t, MakerStall | MakerPanic | MakerUnready | MakerError | NoVersion))
            })?;
            let plain = |name: &str| nt(false, 1, 1, marked(name)).bytes();
            match t {
                Garbage => x.send(&wire::with_len(&[0xff; 40])),
                TooLong => x.send(&In::TooLong(1 << 20).bytes()),
                Disconnect => x.send(&In::Disc(0, "bye".into()).bytes()),
                Reset => {
                    x.send(&plain("later"));
                    n.turn(8);
                    x.leave(true);
                }
                Leave => {
                    x.send(&nt(true, 1, 1, marked("z")).bytes());
                    x.leave(false);
                }
                HalfFrame => {
                    let b = plain("ok");
                    x.send(&b[..b.len() / 2]);
                }
                SecondHello => x.send(&hello),
                ServiceError => x.send(&plain("err")),
                PanicCall => x.send(&plain("panic-call")),
                PanicPoll => x.send(&plain("panic-poll")),
                Never => x.send(&plain("never")),
                Timeout => {
                    x.send(&plain("never"));
                    timeouts = true;
                }
                Deaf => {
                    x.deaf = true;
                    for _ in 0..400 {
                        x.send(&plain("big"));
                    }
                }
                TooBig => x.send(&plain("big")),
                OpenFragments => {
                    for f in 1..4 {
                        x.send(&nt(true, 1, f, marked("foreign")).bytes());
                        x.send(&nt(true, 2, f, marked("foreign")).bytes());
                    }
                }
                AgentFrame => x.send(&wire::wire(&Frame::AgentAck(AgentAck { fragmented: false, aborted: false, stream_id: 1, frame_id: 1, actions: vec![] }))),
                _ => {}
            }
            n.turn(20);
            x.poll();
            bad.push(x);
            Ok(())
        };
        for (i, x) in script.iter().enumerate() {
            for (t, a) in ts.iter().zip(&at) {
                if *a == i {
                    do_trouble(&n, *t, &mut bad)?;
                }
            }
            ps[0].give(x.clone());
            all_ok(&n, &mut ps)?;
        }
        for (t, a) in ts.iter().zip(&at) {
            if *a == script.len() {
                do_trouble(&n, *t, &mut bad)?;
            }
        }
        #[allow(dropping_references)]
        drop(&do_trouble);
        all_ok(&n, &mut ps)?;
        good(&n, &mut ps, "a new connection")?;
        if timeouts {
            n.advance(1001);
            n.turn(10);
        }
        bad.iter_mut().for_each(|b| b.poll());
        all_ok(&n, &mut ps)?;
        ps[0].give(nt(false, 7, 7, tag(1, 7)));
        good(&n, &mut ps, "another new connection")?;
        ensure!(n.served() == 0, "serving ended by the trouble of a connection");
        sh.state(&(format!("{ts:?}"), at.clone(), bad.iter().map(|b| (b.end.is_some(), b.got.len())).collect::<Vec<_>>()));
        sh.eval(1);
        Ok(())
    });
    let (kmax, rounds) = r.q((1030usize, 2usize), (2000, 12));
    r.go(cfg("many", "k connections at once for 13 values of k up to 1030 (thorough: 2000), opened together or one by one, idle or each with an answer outstanding; some end by leaving, an error or a disconnect; those left and new ones are answered; 2 (thorough: 12) times as many one after the other; then shutdown with the outstanding answers given"), |c| {
        let sh = Sh::new(c);
        let ks = [1usize, 2, 7, 8, 9, 16, 31, 32, 63, 65, 129, 257, kmax];
        let k = *c.of(&ks);
        let together = c.flag();
        let busy = c.flag();
        let conf = Conf::new().caps(&ALL).mpt(u64::MAX / 4);
        let w = W::new();
        w.get().answer = Box::new(move |_, _, m| if busy && m.first().is_some_and(|m| m.name.ends_with(".0") && !m.name.starts_with("t9")) { Ans::Later } else { Ans::Ok(echo(m)) });
        let mut n = Net::new(&conf, w.clone());
        // connections that come and go
        let mut gone = vec![];
        for i in 0..k * rounds {
            let mut p = Pair::new(&n, &conf, format!("short connection {i}"));
            p.give(In::Hello(Hello::new()));
            if i % 3 == 0 {
                p.give(In::Disc(0, "bye".into()));
            }
            gone.push(p);
            if gone.len() == 8 {
                all_ok(&n, &mut gone)?;
                gone.clear();
            }
        }
        all_ok(&n, &mut gone)?;
        drop(gone);
        let mut ps: Vec<Pair> = vec![];
        let tagn = |i: usize| tagged(100_000 + i as u32, 1);
        for i in 0..k {
            let mut p = Pair::new(&n, &conf, format!("connection {i} of {k}"));
            p.m.auto = Box::new(move |n, m| if busy && n == 0 { None } else { Some(Reply::Ok(echo(m))) });
            p.give(In::Hello(Hello::new().mfs(1000 + i as u32)));
            p.give(nt(false, 1, 1, tagn(i)));
            ps.push(p);
            if !together || i % 100 == 99 {
                let l = ps.len();
                all_ok(&n, &mut ps[l - 1 - if together { 99 } else { 0 }..])?;
            }
        }
        all_ok(&n, &mut ps)?;
        // some end
        for i in 0..k {
            match i % 7 {
                1 => ps[i].give(In::Eof(vec![])),
                3 if !busy => ps[i].give(In::Disc(0, "bye".into())),
                5 if !busy => ps[i].give(In::Bad(vec![77], &[4])),
                _ => {}
            }
        }
        all_ok(&n, &mut ps)?;
        let mut p = Pair::new(&n, &conf, format!("a connection beside {k}"));
        p.give(In::Hello(Hello::new()));
        p.give(nt(false, 1, 1, tagged(900_000, 1)));
        ps.push(p);
        all_ok(&n, &mut ps)?;
        ensure!(n.served() == 0, "serving ended without a shutdown request");
        if !busy {
            for i in 0..k {
                if i % 7 == 0 {
                    ps[i].give(nt(false, 1, 2, tagn(i)));
                }
            }
            all_ok(&n, &mut ps)?;
        }
        for p in ps.iter_mut().filter(|p| p.c.s.is_some()) {
            p.shut = true;
            if p.m.pending.is_none() {
                p.m.st = St::Closed;
            }
        }
        n.tok.cancel();
        all_ok(&n, &mut ps)?;
        if busy {
            let calls: Vec<(usize, String)> = w.get().log.iter().filter_map(|e| match e { Ev::Call { n, msgs, .. } => msgs.first().map(|m| (*n, m.name.clone())), _ => None }).collect();
            for i in 0..k {
                ensure!(n.served() == 0, "serving ended although notifications are in hand");
                let name = tagn(i)[0].name.clone();
                let Some((call, _)) = calls.iter().find(|c| c.1 == name) else { fail!("the service was not called for connection {i}") };
                w.release(*call, Ans::Ok(vec![]));
                if i % 7 != 1 {
                    ps[i].m.reply(Reply::Ok(vec![]));
                    ps[i].m.st = St::Closed;
                    all_ok(&n, &mut ps[i..=i])?;
                }
            }
        }
        n.until("serving does not end although every connection has ended", || Ok(n.served() == 1))?;
        sh.state(&(k, together, busy));
        sh.eval(1);
        Ok(())
    });
    r.go(cfg("interleaved", "two connections of one runtime, each with a script of a hello and 3 (thorough: 4) inputs from 8 (thorough: 11) kinds (same ids on both, fragments, errors, ends), different agreed settings, in every order; each must see what it would see alone"), |c| {
        let sh = Sh::new(c);
        let (len, kinds) = if c.thorough() { (4, 11) } else { (3, 8) };
        let conf = Conf::new().caps(&ALL);
        let hello = [Hello::new().caps(&ALL).mfs(300), Hello::new().caps(&[]).mfs(16384)];
        let alpha = |k: usize, i: usize, x: usize| -> In {
            match x {
                0 => nt(false, 1, 1, tag(k, i)),
                1 => nt(true, 1, 1, tag(k, i)),
                2 => nt(false, 1, 2, vec![crate::p_codec::msg("big", &[])]),
                3 => nt(false, 2, 2, marked("err")),
                4 => In::Bad(vec![3, 0, 0, 0, 1, 1, 1, 0xff], &[4]),
                5 => In::Disc(0, "".into()),
                6 => nt(false, 1, 3, vec![]),
                7 => In::Eof(vec![0, 0, 0]),
                8 => In::Fail,
                9 => In::Other(Frame::agent_disconnect(Error::Normal, "x")),
                _ => In::TooLong(1 << 20),
            }
        };
        let w = W::new();
        let big = vec![haproxy_spop::Action::SetVar { scope: haproxy_spop::Scope::Request, name: "big".into(), value: haproxy_spop::Typed::Binary(vec![7u8; 400].into()) }];
        let b2 = big.clone();
        w.get().answer = Box::new(move |_, _, m| match m.first().map(|m| m.name.as_str()) {
            Some("err") => Ans::Err("broken".into()),
            Some("big") => Ans::Ok(b2.clone()),
            _ => Ans::Ok(echo(m)),
        });
        let rt = conf.runtime(&w);
        let clock = Clock::new();
        let mut s: Vec<Sim> = (0..2).map(|k| Sim::on(clock.clone(), rt.clone(), w.clone(), Default::default(), ["the first connection: ", "the second connection: "][k])).collect();
        let mut m: Vec<Model> = (0..2)
            .map(|_| {
                let big = big.clone();
                let mut m = Model::new(&conf);
                m.auto = Box::new(move |_, x| {
                    Some(match x.first().map(|m| m.name.as_str()) {
                        Some("err") => Reply::Err("broken".into()),
                        Some("big") => Reply::Ok(big.clone()),
                        _ => Reply::Ok(echo(x)),
                    })
                });
                m
            })
            .collect();
        let mut pos = [0usize; 2];
        loop {
            let can: Vec<usize> = (0..2).filter(|k| pos[*k] <= len && (pos[*k] == 0 || !s[*k].ended())).collect();
            if can.is_empty() {
                break;
            }
            let k = can[sh.choose(can.len())];
            let i = if pos[k] == 0 { In::Hello(hello[k].clone()) } else { alpha(k, pos[k], sh.choose(kinds)) };
            pos[k] += 1;
            sh.note(|| format!("{}{}", s[k].name, i.brief()));
            i.feed(&s[k]);
            m[k].push(i);
            for j in [k, 1 - k] {
                s[j].settle()?;
                if pos[j] > 0 {
                    m[j].check(&s[j])?;
                }
            }
            sh.state(&(pos, m[0].want.len(), m[1].want.len(), m[0].closed(), m[1].closed()));
        }
        let calls = w.get().calls;
        ensure!(calls == m[0].calls.len() + m[1].calls.len(), "{calls} calls of the services, expected {}", m[0].calls.len() + m[1].calls.len());
        let by = |svc: usize| -> Vec<Vec<Message>> { w.calls().into_iter().filter(|c| c.0 == svc).map(|c| c.1).collect() };
        let (a, b) = (by(0), by(1));
        ensure!((a == m[0].calls && b == m[1].calls) || (a == m[1].calls && b == m[0].calls), "the calls of the two services are mixed up");
        sh.eval(1);
        Ok(())
    });
}

// ---------------------------------------------------------------------------------------------

/// EMFILE, ENFILE, ENOMEM, ECONNABORTED, EINTR, EPROTO, ENOBUFS, EPERM, and what accept(2) passes on from
/// the connection's network: ENETDOWN, ENOPROTOOPT, EHOSTDOWN, ENONET, EHOSTUNREACH, EOPNOTSUPP, ENETUNREACH, ETIMEDOUT
const ACCEPT: [i32; 16] = [24, 23, 12, 103, 4, 71, 105, 1, 100, 92, 112, 64, 113, 95, 101, 110];

pub fn c28(r: &mut Run) {
    let depth = r.q(4usize, 6);
    let gone_max = r.q(4usize, 5);
    r.go(cfg("faults", "every sequence of up to 4 (thorough: 6) results of accept, failing (2 (thorough: 6) kinds) or not, with 0 to 2 connections accepted before and up to 3 made while it fails or afterwards; those accepted go on being served meanwhile; then shutdown"), |c| {
        let sh = Sh::new(c);
        first_select(sh);
        let kinds = if c.thorough() { 6 } else { 2 };
        let before = c.choose(3);
        let after = 1 + c.choose(3);
        let mut script = vec![];
        for _ in 0..depth {
            let k = sh.choose(kinds + 2);
            if k == 0 {
                break;
            }
            script.push(if k == 1 { 0 } else { ACCEPT[if kinds == 2 { [0, 3][k - 2] } else { k - 2 }] });
        }
        sh.note(|| format!("{before} connections before, then accept gives {script:?}"));
        let conf = Conf::new().mpt(3_600_000);
        let w = W::new();
        let n = Net::new(&conf, w.clone());
        let mut ps: Vec<Pair> = vec![];
        for k in 0..before {
            let mut p = Pair::new(&n, &conf, format!("connection {k}"));
            p.give(In::Hello(Hello::new()));
            ps.push(p);
            all_ok(&n, &mut ps)?;
        }
        let left = Rc::new(RefCell::new((0usize, script.clone())));
        let l2 = left.clone();
        verif_sched::set_accept(Some(Box::new(move || {
            let mut g = l2.borrow_mut();
            let i = g.0;
            match g.1.get(i) {
                Some(0) => {
                    g.0 += 1;
                    None
                }
                Some(e) => {
                    let e = *e;
                    g.0 += 1;
                    Some(io::Error::from_raw_os_error(e))
                }
                _ => None,
            }
        })));
        let old = ps.len();
        for k in 0..after {
            let mut p = Pair::new(&n, &conf, format!("connection {} (accept: {script:?})", old + k));
            p.give(In::Hello(Hello::new()));
            p.give(nt(false, 1, 1, tag(old + k, 0)));
            ps.push(p);
            // the old ones are served in any case
            n.turn(8);
            for (j, p) in ps[..old].iter_mut().enumerate() {
                p.give(nt(false, 1, 1 + k as u64, tag(j, k)));
            }
            all_ok(&n, &mut ps[..old])?;
            ensure!(n.served() == 0, "serving ended by a failed accept");
        }
        // at the latest 60 s (of the agent's time) after accepting works again all are served
        served_in(&n, &mut ps, 60_000)?;
        ensure!(n.served() == 0, "serving ended by a failed accept");
        end(&n, &mut ps, 1)?;
        sh.state(&(before, after, &script, left.borrow().0));
        sh.eval(1);
        Ok(())
    });
    r.go(cfg("lasting", "accept fails (16 kinds) 1 to 2000 times or for good, with connections waiting; served ones go on; shutdown is obeyed while it fails, before and after a wait"), |c| {
        let sh = Sh::new(c);
        first_select(sh);
        let e = *c.of(&ACCEPT);
        let times = *c.of(&[1usize, 2, 10, 100, 130, 1000, 2000, usize::MAX]);
        let early = c.flag();
        let waiting = c.choose(3);
        sh.note(|| format!("accept fails with error {e} {times} times, {waiting} wait"));
        let conf = Conf::new().mpt(3_600_000);
        let w = W::new();
        w.get().answer = Box::new(|_, _, m| if m.first().is_some_and(|m| m.name == "later") { Ans::Later } else { Ans::Ok(echo(m)) });
        let n = Net::new(&conf, w.clone());
        let mut ps = vec![Pair::new(&n, &conf, "the old connection".into())];
        ps[0].give(In::Hello(Hello::new()));
        all_ok(&n, &mut ps)?;
        let left = Rc::new(RefCell::new(times));
        let l2 = left.clone();
        verif_sched::set_accept(Some(Box::new(move || {
            let mut g = l2.borrow_mut();
            if *g > 0 {
                if *g != usize::MAX {
                    *g -= 1;
                }
                Some(io::Error::from_raw_os_error(e))
            } else {
                None
            }
        })));
        let mut new: Vec<Pair> = vec![];
        for k in 0..waiting {
            let mut p = Pair::new(&n, &conf, format!("the new connection {k}"));
            p.give(In::Hello(Hello::new()));
            new.push(p);
        }
        n.turn(20);
        for k in 0..4u64 {
            ps[0].give(nt(false, 1, 1 + k, tag(1, k as usize)));
            all_ok(&n, &mut ps)?;
            if !early {
                n.advance([1, 100, 5_000, 60_000][k as usize]);
            }
        }
        ensure!(n.served() == 0, "serving ended by a failed accept");
        if times < usize::MAX && !early {
            served_in(&n, &mut new, 4_000_000)?;
        }
        // the shutdown with a notification in hand on the old one
        ps[0].m.auto = Box::new(|_, _| None);
        ps[0].give(nt(false, 9, 9, marked("later")));
        n.until("the service is not called", || Ok(call_of(&w, "later").is_some()))?;
        n.tok.cancel();
        n.turn(30);
        ensure!(n.served() == 0, "serving ended although a notification is in hand");
        w.release(call_of(&w, "later").unwrap(), Ans::Ok(vec![]));
        ps[0].m.reply(Reply::Ok(vec![]));
        ps[0].shut = true;
        ps[0].m.st = St::Closed;
        all_ok(&n, &mut ps)?;
        let mut t = 0;
        let r = n.until("serving does not end after the shutdown request while accepting fails", || {
            t += 1;
            Ok(n.served() == 1 || t > 200)
        });
        r?;
        // an agent that was pausing may take its pause to the end
        for _ in 0..60 {
            if n.served() == 1 {
                break;
            }
            n.advance(1000);
        }
        n.until("serving does not end after the shutdown request while accepting fails", || Ok(n.served() == 1))?;
        sh.state(&(e, times, early, waiting));
        sh.eval(1);
        Ok(())
    });
    r.go(cfg("resets", "up to 4 (thorough: 5) peers that connect before the agent gets to accept them, each staying, or leaving before that by a close or a reset, after nothing, half a frame, a hello or a hello and a notification; before or while serving; those that stay and those that come later are served; then shutdown"), |c| {
        let sh = Sh::new(c);
        first_select(sh);
        let conf = Conf::new().mpt(3_600_000);
        let w = W::new();
        let early = c.flag();
        let mut n = if early { Net::idle(&conf, w.clone()) } else { Net::new(&conf, w.clone()) };
        let mut ps: Vec<Pair> = vec![];
        let mut gone = vec![];
        for k in 0..gone_max {
            // 0: no more, 1: stays, else: leaves
            let what = sh.choose(if k == 0 { 10 } else { 8 });
            if what == 0 {
                break;
            }
            if what == 1 {
                let mut p = Pair::new(&n, &conf, format!("connection {k}, after {gone:?}"));
                p.give(In::Hello(Hello::new()));
                ps.push(p);
                continue;
            }
            let mut x = n.client();
            let hello = In::Hello(Hello::new()).bytes();
            match (what - 2) / 2 {
                0 => {}
                1 => x.send(&hello[..7]),
                2 => {
                    x.send(&hello);
                }
                _ => {
                    x.send(&hello);
                    x.send(&nt(false, 1, 1, marked("gone")).bytes());
                }
            }
            x.leave(what % 2 == 0);
            gone.push(what);
        }
        if early {
            n.start();
        }
        n.turn(8);
        ensure!(n.served() == 0, "serving ended after peers had left early ({gone:?})");
        served_in(&n, &mut ps, 60_000)?;
        for k in 0..2 {
            let mut p = Pair::new(&n, &conf, format!("a new connection, after {gone:?}"));
            p.give(In::Hello(Hello::new()));
            p.give(nt(false, 1, 1, tag(90 + k, 0)));
            ps.push(p);
            served_in(&n, &mut ps, 60_000)?;
        }
        ensure!(n.served() == 0, "serving ended after peers had left early ({gone:?})");
        end(&n, &mut ps, 1)?;
        sh.state(&(early, &gone, ps.len()));
        sh.eval(1);
        Ok(())
    });
}

/// What waiting for a connection on a blocking listener comes to in the end, rather than for ever.
const STUCK: Duration = Duration::from_secs(40);

fn unstick(l: &TcpListener) {
    use std::os::fd::AsRawFd;
    #[repr(C)]
    struct Timeval {
        s: i64,
        us: i64,
    }
    extern "C" {
        fn setsockopt(fd: i32, level: i32, name: i32, val: *const Timeval, len: u32) -> i32;
    }
    const SOL_SOCKET: i32 = 1;
    const SO_RCVTIMEO: i32 = 20;
    let v = Timeval { s: STUCK.as_secs() as i64, us: 0 };
    if unsafe { setsockopt(l.as_raw_fd(), SOL_SOCKET, SO_RCVTIMEO, &v, 16) } != 0 {
        eprintln!("machinery error: no time limit can be set on a listener");
        std::process::exit(2)
    }
}

/// C34: whatever state the listener is in when the agent gets it.
pub fn c34(r: &mut Run) {
    let depth = r.q(5usize, 7);
    let v6 = TcpListener::bind((Ipv6Addr::LOCALHOST, 0)).is_ok();
    r.go(cfg("listeners", "a listener that blocks or does not, of its own address, any address, also of IPv6 if there is one, another handle of it kept or not; every sequence of up to 5 (thorough: 7) of a connection, one that leaves, a notification on every connection, the start of serving and a pause, then the shutdown: everybody is served from the start of serving on, and serving ends"), |c| {
        let sh = Sh::new(c);
        first_select(sh);
        let conf = Conf::new().mpt(3_600_000);
        let w = W::new();
        let any = c.choose(if v6 { 4 } else { 2 });
        let l = listen_on([None, Some(Ipv4Addr::UNSPECIFIED.into()), Some(Ipv6Addr::LOCALHOST.into()), Some(Ipv6Addr::UNSPECIFIED.into())][any]);
        unstick(&l);
        let blocking = c.flag();
        l.set_nonblocking(!blocking).unwrap();
        let keep = match c.choose(2) {
            0 => None,
            _ => Some(l.try_clone().unwrap()),
        };
        let port = l.local_addr().unwrap().port();
        let addr: SocketAddr = match any {
            0 => l.local_addr().unwrap(),
            1 => (Ipv4Addr::LOCALHOST, port).into(),
            2 => (Ipv6Addr::LOCALHOST, port).into(),
            // the one address for both
            _ => (if c.flag() { IpAddr::from(Ipv4Addr::LOCALHOST) } else { Ipv6Addr::LOCALHOST.into() }, port).into(),
        };
        sh.note(|| format!("a listener on {:?} that {}", l.local_addr(), if blocking { "blocks" } else { "does not block" }));
        let at = Instant::now();
        let mut n = Net::on(&conf, w.clone(), l).map_err(|e| Violation(format!("the agent cannot be made: {e}")))?;
        let mut ps: Vec<Pair> = vec![];
        let mut started = false;
        let mut hist = vec![];
        for _ in 0..depth {
            let what = sh.choose(6);
            hist.push(what);
            match what {
                0 => break,
                1 => {
                    let mut p = Pair::new_at(&n, &conf, format!("connection {} ({hist:?})", ps.len()), addr);
                    p.give(In::Hello(Hello::new()));
                    ps.push(p);
                }
                2 => {
                    let mut x = n.client_at(addr);
                    x.send(&In::Hello(Hello::new()).bytes());
                    x.leave(c.flag());
                }
                3 => {
                    let k = hist.len();
                    for (j, p) in ps.iter_mut().enumerate() {
                        p.give(nt(false, 1, k as u64, tag(j, k)));
                    }
                }
                4 => {
                    if !started {
                        n.start();
                        started = true;
                    }
                    n.turn(8);
                }
                _ => n.advance(1000),
            }
            if started {
                all_ok(&n, &mut ps)?;
                ensure!(n.served() == 0, "serving ended without a shutdown request");
            }
            ensure!(at.elapsed() < STUCK - Duration::from_secs(5), "the agent blocks its thread while it waits for a connection");
        }
        if !started {
            n.start();
            n.turn(8);
        }
        all_ok(&n, &mut ps)?;
        end(&n, &mut ps, 1)?;
        ensure!(at.elapsed() < STUCK - Duration::from_secs(5), "the agent blocks its thread while it waits for a connection");
        drop(keep);
        sh.state(&(any, blocking, &hist));
        sh.eval(1);
        Ok(())
    });
}

/// C37: serving that is dropped, taken up again, and done more than once at a time.
pub fn c37(r: &mut Run) {
    let depth = r.q(6usize, 7);
    let most = r.q(2usize, 3);
    r.go(cfg("histories", "every sequence of up to 6 (thorough: 7) of: a connection, a notification on every connection, a further call of serve (up to 2, thorough 3, at a time), the drop of one of them (with a connection made 0 to 2 turns before it or none), an accept that fails, a pause of 50 or 100 ms; then the shutdown, with a notification in hand or not, all calls dropped and made again or not, and a further one at the end"), |c| {
        let sh = Sh::new(c);
        first_select(sh);
        let conf = Conf::new().mpt(3_600_000);
        let w = W::new();
        w.get().answer = Box::new(|_, _, m| if m.first().is_some_and(|m| m.name == "later") { Ans::Later } else { Ans::Ok(echo(m)) });
        let mut n = Net::idle(&conf, w.clone());
        let fails = Rc::new(RefCell::new(0u32));
        let f2 = fails.clone();
        verif_sched::set_accept(Some(Box::new(move || {
            let mut g = f2.borrow_mut();
            if *g == 0 {
                return None;
            }
            *g -= 1;
            Some(io::Error::from_raw_os_error(24))
        })));
        let mut ps: Vec<Pair> = vec![];
        // how many of the connections an agent has taken up
        let mut taken = 0;
        let mut hist = String::new();
        let drop_one = |n: &mut Net, i: usize| -> Res {
            let h = n.serve.remove(i);
            ensure!(!h.is_finished(), "serving ended without a shutdown request");
            h.abort();
            for _ in 0..50 {
                if h.is_finished() {
                    break;
                }
                n.turn(1);
            }
            ensure!(h.is_finished(), "a call of serve that is dropped goes on");
            Ok(())
        };
        let connect = |n: &Net, ps: &mut Vec<Pair>, hist: &str| {
            let mut p = Pair::new(n, &conf, format!("connection {} ({hist})", ps.len()));
            p.give(In::Hello(Hello::new()));
            ps.push(p);
        };
        for at in 0..depth {
            // what makes no difference is not asked for
            let calls = n.serve.len();
            let mut can = vec!["", "connection"];
            if !ps.is_empty() && !hist.ends_with("notify ") {
                can.push("notify");
            }
            if calls < most {
                can.push("serve");
            }
            if calls > 0 {
                can.push("drop");
            }
            if *fails.borrow() == 0 {
                can.push("fail");
            }
            if calls > 0 && !hist.ends_with("pause ") {
                can.push("pause");
            }
            let what = *sh.of(&can);
            hist += what;
            hist.push(' ');
            match what {
                "" => break,
                "connection" => connect(&n, &mut ps, &hist),
                "notify" => {
                    for (j, p) in ps.iter_mut().enumerate() {
                        p.give(nt(false, 1, 1 + at as u64, tag(j, at)));
                    }
                }
                "serve" => n.start(),
                "drop" => {
                    let first = calls > 1 && c.flag();
                    let turns = c.choose(4);
                    if turns > 0 {
                        connect(&n, &mut ps, &hist);
                        n.turn(turns - 1);
                    }
                    drop_one(&mut n, if first { 0 } else { calls - 1 })?;
                }
                "fail" => *fails.borrow_mut() += 1,
                _ => n.advance(if c.flag() { 100 } else { 50 }),
            }
            if n.serve.is_empty() {
                // the others may have been taken up before the drop
                n.turn(4);
                all_ok(&n, &mut ps[..taken])?;
            } else {
                served_in(&n, &mut ps, 60_000)?;
                taken = ps.len();
            }
            ensure!(n.served() == 0, "serving ended without a shutdown request ({hist})");
        }
        sh.note(|| hist.clone());
        let alive = n.rt.metrics().num_alive_tasks();
        ensure!(alive >= taken + n.serve.len() && alive <= ps.len() + n.serve.len(), "{alive} tasks go on with {} connections and {} calls of serve", ps.len(), n.serve.len());
        let hand = taken > 0 && c.flag();
        if hand {
            ps[0].m.auto = Box::new(|_, _| None);
            ps[0].give(nt(false, 9, 9, marked("later")));
            n.until("the service is not called", || Ok(call_of(&w, "later").is_some()))?;
        }
        let again = c.flag();
        n.tok.cancel();
        n.turn(if again { c.choose(2) * 8 } else { 8 });
        if again {
            for h in n.serve.drain(..) {
                h.abort();
            }
            n.turn(4);
        }
        if n.serve.is_empty() {
            n.start();
        }
        n.turn(8);
        // those nobody has taken up are not served any more, if they were not
        let made = w.get().makes;
        ensure!(made >= taken && made <= ps.len(), "{made} services were made for {} connections ({hist})", ps.len());
        ps.truncate(taken);
        if hand {
            ensure!(n.served() == 0, "serving ended although a notification is in hand ({hist})");
            n.advance(1000);
            ensure!(n.served() == 0, "serving ended although a notification is in hand ({hist})");
            w.release(call_of(&w, "later").unwrap(), Ans::Ok(vec![]));
            ps[0].m.reply(Reply::Ok(vec![]));
        }
        n.start();
        end(&n, &mut ps, n.serve.len())?;
        ensure!(w.get().in_hand == 0, "serving ended with calls in hand");
        sh.state(&(&hist, hand, again));
        sh.eval(1);
        Ok(())
    });
    let depth = r.q(6usize, 7);
    r.go(cfg("endings", "the shutdown with up to 2 connections that have a notification in hand, one that is idle or none, and 0 to 2 calls of serve; before and after it every sequence of up to 6 (thorough: 7) of a further call of serve (up to 3 at a time), the drop of one, the answer to a notification, a pause: every call ends once all connections have ended, and none before"), |c| {
        let sh = Sh::new(c);
        first_select(sh);
        let conf = Conf::new().mpt(3_600_000);
        let w = W::new();
        w.get().answer = Box::new(|_, _, _| Ans::Later);
        let mut n = Net::idle(&conf, w.clone());
        let busy = c.choose(3);
        let idle = c.flag();
        n.start();
        let mut ps: Vec<Pair> = vec![];
        for k in 0..busy + idle as usize {
            let mut p = Pair::new(&n, &conf, format!("connection {k}"));
            p.m.auto = Box::new(|_, _| None);
            p.give(In::Hello(Hello::new()));
            ps.push(p);
            all_ok(&n, &mut ps)?;
            if k < busy {
                ps[k].give(nt(false, 1, 1, tag(k, 0)));
                n.until("the service is not called", || Ok(call_of(&w, &tag_name(k, 0)).is_some()))?;
            }
        }
        let mut hist = String::new();
        let mut shut = false;
        let mut open: Vec<usize> = (0..busy).collect();
        for at in 0..=depth {
            let mut can = vec![];
            if !shut {
                can.push("shutdown");
            }
            if at < depth {
                if shut {
                    can.push("");
                }
                if n.serve.len() < 3 {
                    can.push("serve");
                }
                if !n.serve.is_empty() {
                    can.push("drop");
                }
                if !open.is_empty() {
                    can.push("answer");
                }
                if !hist.ends_with("pause ") {
                    can.push("pause");
                }
            }
            if can.is_empty() {
                break;
            }
            let what = *sh.of(&can);
            hist += what;
            hist.push(' ');
            match what {
                "" => break,
                "shutdown" => {
                    n.tok.cancel();
                    shut = true;
                    for (k, p) in ps.iter_mut().enumerate() {
                        if !open.contains(&k) {
                            p.shut = true;
                            p.m.st = St::Closed;
                        }
                    }
                }
                "serve" => n.start(),
                "drop" => {
                    let i = c.choose(n.serve.len());
                    n.serve.remove(i).abort();
                }
                "answer" => {
                    let i = c.choose(open.len());
                    let k = open.remove(i);
                    w.release(call_of(&w, &tag_name(k, 0)).unwrap(), Ans::Ok(vec![]));
                    ps[k].m.reply(Reply::Ok(vec![]));
                    if shut {
                        ps[k].shut = true;
                        ps[k].m.st = St::Closed;
                    }
                }
                _ => n.advance(100),
            }
            n.turn(8);
            all_ok(&n, &mut ps)?;
            if shut && open.is_empty() {
                n.until("serving does not end although every connection has ended", || Ok(n.served() == n.serve.len()))?;
            } else {
                ensure!(n.served() == 0, "serving ended with {} connections at work ({hist})", open.len());
            }
        }
        sh.note(|| hist.clone());
        for k in open {
            w.release(call_of(&w, &tag_name(k, 0)).unwrap(), Ans::Ok(vec![]));
            ps[k].m.reply(Reply::Ok(vec![]));
        }
        n.start();
        end(&n, &mut ps, n.serve.len())?;
        sh.state(&(&hist, busy, idle));
        sh.eval(1);
        Ok(())
    });
    let long = r.q(300usize, 2000);
    r.go(cfg("many", "serve called n times one after the other, each call dropped (at once, after a turn, after a connection or in the middle of a notification), or n times at once (n = 1 to 40, 63 to 65, 127 to 129, 255 to 257, 300, thorough: 2000), all but the last, all but the first or none dropped: a connection made before, one made at the n-th and one made afterwards are served; then the shutdown ends every call"), |c| {
        let sh = Sh::new(c);
        let ns: Vec<usize> = (1..=40).chain([63, 64, 65, 127, 128, 129, 255, 256, 257, long]).collect();
        let count = *c.of(&ns);
        let mode = c.choose(7);
        let conf = Conf::new().mpt(3_600_000);
        let w = W::new();
        w.get().answer = Box::new(|_, _, m| Ans::Ok(echo(m)));
        let mut n = Net::idle(&conf, w.clone());
        let mut ps: Vec<Pair> = vec![];
        let mut open = |n: &Net, ps: &mut Vec<Pair>, what: &str| {
            let mut p = Pair::new(n, &conf, format!("{what} ({count} calls, mode {mode})"));
            p.give(In::Hello(Hello::new()));
            p.give(nt(false, 1, 1, tag(ps.len(), 1)));
            ps.push(p);
        };
        if mode % 2 == 0 {
            open(&n, &mut ps, "a connection made before serve is called");
        }
        if mode < 4 {
            for i in 0..count {
                n.start();
                match mode {
                    0 => {}
                    1 => n.turn(1),
                    2 => {
                        if i + 1 == count || i % 16 == 3 {
                            open(&n, &mut ps, "a connection made before the drop");
                        }
                        n.turn(2);
                    }
                    _ => {
                        if i == 0 {
                            n.turn(4);
                            open(&n, &mut ps, "a connection made by the first call");
                            served_in(&n, &mut ps, 10_000)?;
                        } else {
                            ps[0].give(nt(false, 1, 1 + i as u64, tag(0, i)));
                            n.turn(1);
                        }
                    }
                }
                ensure!(n.served() == 0, "serving ended without a shutdown request");
                let h = n.serve.pop().unwrap();
                h.abort();
                for _ in 0..50 {
                    if h.is_finished() {
                        break;
                    }
                    n.turn(2);
                }
                ensure!(h.is_finished(), "a call of serve that is dropped goes on");
            }
            n.start();
        } else {
            for _ in 0..count {
                n.start();
                if mode == 4 {
                    n.turn(1);
                }
            }
            n.turn(4 + 2 * count);
            ensure!(n.served() == 0, "serving ended without a shutdown request");
            open(&n, &mut ps, "a connection made while all serve");
            served_in(&n, &mut ps, 10_000)?;
            let keep = match mode {
                5 => 0..1,
                6 => count - 1..count,
                _ => 0..count,
            };
            let mut i = 0;
            n.serve.retain(|h| {
                let k = keep.contains(&i);
                i += 1;
                if !k {
                    h.abort();
                }
                k
            });
        }
        n.turn(4 + 2 * count);
        open(&n, &mut ps, "a connection made by the end");
        served_in(&n, &mut ps, 10_000)?;
        for (k, p) in ps.iter_mut().enumerate() {
            p.give(nt(false, 3, 1, tag(k, 90)));
        }
        served_in(&n, &mut ps, 10_000)?;
        ensure!(n.served() == 0, "serving ended without a shutdown request");
        n.start();
        end(&n, &mut ps, n.serve.len())?;
        n.start();
        let all = n.serve.len();
        n.until("a call of serve after the shutdown does not end", || Ok(n.served() == all))?;
        sh.state(&(count, mode));
        sh.eval(1);
        Ok(())
    });
}

/// C32 at the agent: ends of connections over and over.
pub fn c32(r: &mut Run) {
    use crate::alloc::live;
    use crate::p_codec::msg;
    let (warm, reps) = (24u64, r.q(144u64, 1000));
    r.go(cfg("agent", "connections of an agent on loopback sockets that end in one of 22 ways, alone or while another one goes on, each 144 (thorough: 1000) times: the peer sees the end, the service is dropped, no task goes on and the memory held does not grow; then shutdown still ends it"), |c| {
        let sh = Sh::new(c);
        first_select(sh);
        let kinds: Vec<Trouble> = TROUBLES.iter().cloned().filter(|t| !matches!(t, Calm | Never | Deaf | MakerStall | MakerUnready)).collect();
        let t = *c.of(&kinds);
        let open = c.flag();
        let with = c.flag();
        sh.note(|| format!("{t:?} {}with open fragments, {}", if open { "" } else { "not " }, if with { "another connection goes on" } else { "alone" }));
        let conf = Conf::new().caps(&ALL).mpt(1000).mfs(16384);
        let w = W::new();
        crate::p_more::script(&w);
        let on = Arc::new(AtomicU32::new(0));
        let o2 = on.clone();
        w.get().make = Box::new(move |_| match t {
            MakerError if o2.load(Ordering::Relaxed) == 1 => Mk::Err("no service".into()),
            MakerPanic if o2.load(Ordering::Relaxed) == 1 => Mk::Panic,
            _ => Mk::Ok,
        });
        let n = Net::new(&conf, w.clone());
        let mut ps = vec![];
        if with {
            let mut p = Pair::new(&n, &conf, "the other connection".into());
            p.give(In::Hello(Hello::new().caps(&ALL)));
            p.give(nt(true, 7, 7, marked("fragment")));
            ps.push(p);
            all_ok(&n, &mut ps)?;
        }
        on.store(1, Ordering::Relaxed);
        let stay = n.rt.metrics().num_alive_tasks();
        let kept = w.services().0;
        let mut at = 0;
        for i in 0..reps {
            if i == warm {
                at = live();
            }
            let makes = w.get().makes;
            let mut x = n.client();
            let early = matches!(t, NoVersion | Health);
            match t {
                NoVersion => x.send(&In::Hello(Hello { versions: vec![Version { major: 9, minor: 9 }], ..Hello::new() }).bytes()),
                Health => x.send(&In::Hello(Hello::new().hc(Some(true))).bytes()),
                _ => x.send(&In::Hello(Hello::new().caps(&ALL)).bytes()),
            }
            if !early && !matches!(t, MakerError | MakerPanic) {
                n.until("the handshake is not answered", || {
                    x.poll();
                    Ok(!x.got.is_empty())
                })?;
                if open {
                    for f in 0..2 {
                        x.send(&nt(true, 1, 16 * i + 1 + f, marked("fragment")).bytes());
                    }
                }
                let plain = |name: &str| nt(false, 3, 16 * i + 9, vec![msg(name, &[("k", Typed::String("v".into()))])]).bytes();
                let calls = w.get().calls;
                match t {
                    Garbage => x.send(&wire::with_len(&[0xff; 40])),
                    TooLong => x.send(&In::TooLong(1 << 20).bytes()),
                    Disconnect => x.send(&In::Disc(0, "bye".into()).bytes()),
                    SecondHello => x.send(&In::Hello(Hello::new()).bytes()),
                    AgentFrame => x.send(&wire::wire(&Frame::AgentAck(AgentAck { fragmented: false, aborted: false, stream_id: 1, frame_id: 1, actions: vec![] }))),
                    ServiceError => x.send(&plain("err")),
                    PanicCall => x.send(&plain("panic-call")),
                    PanicPoll => x.send(&plain("panic-poll")),
                    TooBig => x.send(&plain("big")),
                    Timeout => x.send(&plain("never")),
                    HalfFrame => {
                        let b = plain("ok");
                        x.send(&b[..b.len() / 2]);
                    }
                    Reset => x.send(&plain("ok")),
                    OpenFragments => x.send(&nt(true, 2, 16 * i + 1, marked("fragment")).bytes()),
                    _ => {}
                }
                if matches!(t, Timeout) {
                    n.until("the service is not called", || Ok(w.get().calls > calls))?;
                    n.turn(4);
                    n.advance(1001);
                }
            }
            let leaves = matches!(t, HalfFrame | Reset | OpenFragments | Leave);
            if leaves {
                n.turn(4);
                x.leave(t == Reset);
            } else {
                n.until("the peer does not see the end of the connection", || {
                    x.poll();
                    Ok(x.end.is_some())
                })?;
            }
            drop(x);
            n.until("", || {
                let (made, gone) = w.services();
                Ok(made == gone + if i == 0 { kept } else { 0 } && w.get().in_hand == 0 && n.rt.metrics().num_alive_tasks() <= stay && (early || w.get().makes > makes))
            })
            .map_err(|_| {
                let (made, gone) = w.services();
                Violation(format!("the end of connection {i} leaves something behind: {made} services were made and {gone} dropped, {} calls are in hand, {} tasks go on of which {stay} may", w.get().in_hand, n.rt.metrics().num_alive_tasks()))
            })?;
            w.forget();
        }
        let more = live() - at;
        // registrations that the reactor releases in groups
        ensure!(more <= 2048 + 8 * (reps - warm) as isize, "{} further connections with the same end leave {more} bytes behind", reps - warm);
        on.store(0, Ordering::Relaxed);
        if with {
            ps[0].give(nt(false, 7, 7, marked("rest")));
            all_ok(&n, &mut ps)?;
        }
        n.tok.cancel();
        n.until("serving does not end", || Ok(n.served() == 1))?;
        sh.state(&(format!("{t:?}"), open, with));
        sh.eval(reps);
        Ok(())
    });
}

/// Lets the agent's time go on until all is served.
fn served_in(n: &Net, ps: &mut [Pair], ms: u64) -> Res {
    let mut t = 0;
    let step = 250;
    loop {
        n.turn(4);
        let mut all = true;
        for p in ps.iter_mut() {
            all &= p.ok()?;
        }
        if all {
            return Ok(());
        }
        if t > ms {
            // real time, too
            return all_ok(n, ps).map_err(|e| Violation(format!("{ms} ms after accepting works again: {}", e.0)));
        }
        n.advance(step);
        t += step;
    }
}

/// Shuts the agent down, all connections being idle.
fn end(n: &Net, ps: &mut [Pair], calls: usize) -> Res {
    n.tok.cancel();
    for p in ps.iter_mut() {
        p.shut = true;
        p.m.st = St::Closed;
    }
    all_ok(n, ps)?;
    n.turn(20);
    // an agent that was pausing may take its pause to the end
    for _ in 0..60 {
        if n.served() == calls {
            break;
        }
        n.advance(1000);
    }
    n.until("serving does not end after the shutdown request", || Ok(n.served() == calls))
}
