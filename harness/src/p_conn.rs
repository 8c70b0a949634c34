//! C17..C25, C31: one agent connection against the reference model.
use crate::conn::*;
use crate::drv::Sh;
use crate::engine::*;
use crate::io::{End, FlushAns, ReadAns, WriteAns};
use crate::p_codec::msg;
use crate::run::{known_finding, Run};
use crate::svc::{echo, odd_actions, odd_messages, odd_texts, tagged, Ans, Ev, Mk, Rd, Who, W};
use crate::wire;
use crate::{ensure, fail};
use haproxy_spoa::runtime::Builder;
use haproxy_spop::{Action, AgentAck, AgentHello, Capability, Error, Frame, Message, Scope, Typed, Version};
use std::cell::RefCell;
use std::collections::{BTreeSet, VecDeque};
use std::io;
use std::rc::Rc;
use std::sync::{Arc, Mutex};
use std::time::Duration;

fn v(a: u8, b: u8) -> Version {
    Version::new(a, b)
}
fn subset<T: Clone>(s: &[T], mask: usize) -> Vec<T> {
    s.iter().enumerate().filter(|(i, _)| mask >> i & 1 == 1).map(|(_, x)| x.clone()).collect()
}
/// Every order of the list (up to 4 elements).
fn orders<T: Clone>(s: &[T]) -> Vec<Vec<T>> {
    if s.is_empty() {
        return vec![vec![]];
    }
    let mut r = vec![];
    for i in 0..s.len() {
        let mut rest = s.to_vec();
        let x = rest.remove(i);
        for mut o in orders(&rest) {
            o.insert(0, x.clone());
            r.push(o);
        }
    }
    r
}
fn noter(sh: Sh) -> impl Fn(&In) {
    move |i: &In| sh.note(|| i.brief())
}
/// One hello and a probe notification.
fn handshake_case(c: &mut Ctx, conf: &Conf, hello: In, probes: &[In], how: Deliver) -> Res {
    let sh = Sh::new(c);
    let w = W::new();
    let mut s = Sim::new(conf, w.clone());
    let mut m = Model::new(conf);
    let mut ins = vec![hello];
    ins.extend(probes.iter().cloned());
    sh.note(|| format!("agent: versions {:?} frame size {} capabilities {:?}", conf.versions.iter().map(|v| v.to_string()).collect::<Vec<_>>(), conf.mfs, conf.caps));
    play(&mut s, &mut m, &ins, how, &noter(sh))?;
    m.check_calls(&w)?;
    let (got, _) = s.got()?;
    sh.outcome(&kinds(&got));
    sh.state(&kinds(&got));
    sh.eval(1);
    Ok(())
}

pub fn c17(r: &mut Run) {
    let vs = [v(1, 0), v(1, 9), v(2, 0), v(2, 1), v(3, 0)];
    let th = r.thorough();
    r.go(cfg("versions", "every non-empty set of agent versions and every announced list of up to 3 (thorough: 4) of 5 versions in every order, with repetitions, followed by a notification"), |c| {
        let conf = Conf { versions: subset(&vs, 1 + c.choose(31)), ..Conf::new() };
        let n = if th { 4 } else { 3 };
        let first = c.choose(5);
        let mut l = vec![vs[first]];
        for _ in 1..n {
            let k = c.choose(6);
            if k == 5 {
                break;
            }
            l.push(vs[k]);
        }
        // in one out of the two orders the agent is configured with
        let mut conf = conf;
        if c.flag() {
            conf.versions.reverse();
        }
        let h = Hello { versions: l, ..Hello::new() };
        handshake_case(c, &conf, In::Hello(h), &[nt(false, 1, 1, tagged(1, 1))], Deliver::Lockstep)
    });
    // what orders by text, by the minor or by bytes would get wrong
    let far = [v(1, 9), v(1, 10), v(2, 0), v(2, 9), v(2, 10), v(9, 255), v(10, 0), v(0, 255)];
    r.go(cfg("wide versions", "every pair (thorough: triple) of agent versions and every announced list of up to 3 of 8 versions with numbers of one to three digits"), |c| {
        let m = if th { 3 } else { 2 };
        let conf = Conf { versions: (0..m).map(|_| *c.of(&far)).collect(), ..Conf::new() };
        let mut l = vec![*c.of(&far)];
        for _ in 1..3 {
            let k = c.choose(9);
            if k == 8 {
                break;
            }
            l.push(far[k]);
        }
        let h = Hello { versions: l, ..Hello::new() };
        handshake_case(c, &conf, In::Hello(h), &[nt(false, 1, 1, tagged(1, 1))], Deliver::Lockstep)
    });
    r.go(cfg("every version", "each of the 65536 versions: supported by both, by both with another one, by one side only"), |c| {
        let (x, two) = (v(c.choose(256) as u8, c.choose(256) as u8), v(2, 0));
        let (agent, peer) = match c.choose(4) {
            0 => (vec![x], vec![x]),
            1 => (vec![two, x], vec![two, x]),
            2 => (vec![two], vec![x]),
            _ => (vec![x], vec![two]),
        };
        let conf = Conf { versions: agent, ..Conf::new() };
        let h = Hello { versions: peer, ..Hello::new() };
        handshake_case(c, &conf, In::Hello(h), &[nt(false, 1, 1, tagged(1, 1))], Deliver::Lockstep)
    });
    let sizes: [u64; 16] = [256, 257, 300, 1000, 4096, 16379, 16380, 16381, 16384, 65535, 65536, 1 << 20, (1 << 31) - 1, 1 << 31, u32::MAX as u64 - 1, u32::MAX as u64];
    let big: [u64; 5] = [1 << 32, (1 << 32) + 256, (1 << 32) + 300, 1 << 33, u64::MAX];
    r.go(cfg("sizes", "every pair of maximum frame sizes from 16 values 256..2^32-1, and agent sizes up to 2^64-1"), |c| {
        let a: Vec<u64> = sizes.iter().chain(&big).copied().collect();
        let conf = Conf::new().mfs(*c.of(&a) as usize);
        let h = Hello::new().mfs(*c.of(&sizes) as u32);
        let how = *c.of(&[Deliver::Lockstep, Deliver::Burst]);
        handshake_case(c, &conf, In::Hello(h), &[nt(false, 1, 1, tagged(1, 1))], how)
    });
    let top = r.q(20_000u32, 70_000);
    r.go(cfg("every size", "every announced maximum frame size from 256 to 19999 (thorough: 69999), below, at and above the agent's (300, 16384 and 2^20)"), |c| {
        let conf = Conf::new().mfs(*c.of(&[300usize, 16384, 1 << 20]));
        let h = Hello::new().mfs(256 + c.choose(top as usize - 256) as u32);
        handshake_case(c, &conf, In::Hello(h), &[nt(false, 1, 1, tagged(1, 1))], Deliver::Burst)
    });
    r.go(cfg("capabilities", "every set of agent capabilities and every announced list of up to 3 of them in every order with repetitions and unknown ones between, followed by a fragmented notification"), |c| {
        let conf = Conf::new().caps(&subset(&ALL, c.choose(8)));
        let mut l = vec![];
        for _ in 0..4 {
            let k = c.choose(4);
            if k == 0 {
                break;
            }
            l.push(ALL[k - 1].clone());
        }
        let odd = c.choose(4);
        let h = Hello::new().caps(&l);
        // unknown capabilities around and between the known ones
        let hello = if odd == 0 {
            In::Hello(h)
        } else {
            let list: Vec<&str> = l.iter().map(wire::cap).collect();
            let t = match odd {
                1 => format!("x-unknown,{}", list.join(", ")),
                2 => format!("{},zzz", list.join(" ,x,")),
                _ => format!(" {} ", list.join(" , ")),
            };
            let mut b = wire::head(1, 1, 0, 0);
            b.extend(wire::kv("capabilities", &Typed::String(t)));
            b.extend(wire::kv("supported-versions", &Typed::String("2.0".into())));
            b.extend(wire::kv("max-frame-size", &Typed::Uint32(16380)));
            return raw_hello(c, &conf, &b, h);
        };
        handshake_case(c, &conf, hello, &[nt(true, 1, 1, tagged(1, 1)), nt(false, 1, 1, tagged(2, 1))], Deliver::Lockstep)
    });
    r.go(cfg("long lists", "announced lists of 4 to 1000 versions or capabilities, repeated, different or unknown, with the only common one at the start, in the middle or at the end"), |c| {
        let n = *c.of(&[4usize, 5, 8, 9, 15, 16, 17, 32, 33, 64, 65, 128, 129, 255, 256, 257, 1000]);
        let at = [0, n / 2, n][c.choose(3)];
        let conf = Conf::new().caps(&ALL);
        let mut h = Hello::new().caps(&ALL);
        let hello = match c.choose(4) {
            0 => {
                h.versions = vec![v(1, 0); n];
                h.versions.insert(at, v(2, 0));
                In::Hello(h)
            }
            1 => {
                h.versions = (0..n).map(|i| v(3 + (i / 250) as u8, (i % 250) as u8)).collect();
                h.versions.insert(at, v(2, 0));
                In::Hello(h)
            }
            2 => {
                h.caps = vec![ASYNC; n];
                h.caps.insert(at, FRAG);
                In::Hello(h)
            }
            _ => {
                let mut l: Vec<String> = (0..n).map(|i| format!("x-{i}")).collect();
                l.insert(at, "fragmentation".into());
                let mut b = wire::head(1, 1, 0, 0);
                b.extend(wire::kv("supported-versions", &Typed::String("2.0".into())));
                b.extend(wire::kv("max-frame-size", &Typed::Uint32(16380)));
                b.extend(wire::kv("capabilities", &Typed::String(l.join(","))));
                return raw_hello(c, &conf, &b, h.caps(&[FRAG]));
            }
        };
        handshake_case(c, &conf, hello, &[nt(true, 1, 1, tagged(1, 1)), nt(false, 1, 1, tagged(2, 1))], Deliver::Lockstep)
    });
    r.go(cfg("mixed", "sets of versions, sizes and capabilities on both sides together, item orders of the hello, health checks, delivery in one piece, bytewise and in pieces"), |c| {
        let conf = Conf { versions: subset(&vs[1..4], 1 + c.choose(7)), caps: subset(&ALL, c.choose(8)), mfs: [300, 16384, 70000][c.choose(3)], mpt: 1000 };
        let h = Hello { versions: subset(&vs[1..4], 1 + c.choose(7)), caps: subset(&ALL, c.choose(8)), mfs: [256, 16380, 100000][c.choose(3)], hc: [None, Some(true), Some(false)][c.choose(3)], engine: [Some("engine".to_string()), None][c.choose(2)].clone() };
        let how = *c.of(&DELIVER);
        if how == Deliver::Lockstep {
            let items = [
                wire::kv("supported-versions", &wire::versions(&h.versions)),
                wire::kv("max-frame-size", &Typed::Uint32(h.mfs)),
                wire::kv("capabilities", &wire::caps(&h.caps)),
            ];
            for o in orders(&items) {
                let mut b = wire::head(1, 1, 0, 0);
                if let Some(x) = h.hc {
                    b.extend(wire::kv("healthcheck", &Typed::Boolean(x)));
                }
                b.extend(o.concat());
                raw_hello(c, &conf, &b, h.clone())?;
            }
            return Ok(());
        }
        handshake_case(c, &conf, In::Hello(h), &[nt(false, 3, 1, tagged(1, 1)), nt(true, 1, 1, tagged(2, 1)), nt(false, 1, 1, tagged(3, 1))], how)
    });
}

/// Sends the given bytes in place of the hello.
fn raw_hello(c: &mut Ctx, conf: &Conf, b: &[u8], h: Hello) -> Res {
    let w = W::new();
    let mut s = Sim::new(conf, w.clone());
    let mut m = Model::new(conf);
    c.note(|| format!("agent {conf:?}; {}", In::Hello(h.clone()).brief()));
    s.send_frame(b);
    m.push(In::Hello(h));
    s.settle()?;
    m.check(&s)?;
    let n = nt(true, 1, 1, tagged(1, 1));
    n.feed(&s);
    m.push(n);
    s.settle()?;
    m.check(&s)?;
    m.check_calls(&w)?;
    let (got, _) = s.got()?;
    c.state(&kinds(&got));
    c.eval(1);
    Ok(())
}

/// Hellos that may not be accepted, with the statuses that tell why.
pub fn bad_hellos() -> Vec<(Vec<u8>, &'static [u32])> {
    let ver = wire::kv("supported-versions", &Typed::String("2.0".into()));
    let mfs = wire::kv("max-frame-size", &Typed::Uint32(16380));
    let caps = wire::kv("capabilities", &Typed::String("pipelining".into()));
    let h = |sid, fid, parts: &[&Vec<u8>]| {
        let mut b = wire::head(1, 1, sid, fid);
        for p in parts {
            b.extend(p.iter());
        }
        b
    };
    let full = h(0, 0, &[&ver, &mfs, &caps]);
    let mut l: Vec<(Vec<u8>, &'static [u32])> = vec![
        (h(0, 0, &[&mfs, &caps]), &[4, 5]),
        (h(0, 0, &[&ver, &caps]), &[4, 6]),
        (h(0, 0, &[&ver, &mfs]), &[4, 7]),
        (h(0, 0, &[]), &[4, 5, 6, 7]),
        (h(1, 0, &[&ver, &mfs, &caps]), &[4]),
        (h(0, 1, &[&ver, &mfs, &caps]), &[4]),
    ];
    for n in [1, 5, full.len() / 2, full.len() - 1] {
        l.push((full[..n].to_vec(), &[4, 5, 6, 7]));
    }
    l
}
/// Frames that cannot be decoded.
pub fn bad_frames() -> Vec<(Vec<u8>, &'static [u32])> {
    let good = wire::body(&crate::p_codec::notify(false, 5, 6, vec![msg("m", &[("a", Typed::Uint32(300)), ("b", Typed::String("xyz".into()))])]));
    let mut l: Vec<(Vec<u8>, &'static [u32])> = vec![];
    for n in 0..good.len() {
        // a cut right after the metadata or a whole message is a shorter, well-formed notify
        if matches!(wire::parse(&good[..n]), wire::Verdict::Reject(_)) {
            l.push((good[..n].to_vec(), &[4]));
        }
    }
    let mut stray = good.clone();
    stray.push(7);
    l.push((stray, &[4]));
    let mut ty = good.clone();
    for t in [4u8, 42, 100, 104, 255] {
        ty[0] = t;
        l.push((ty.clone(), &[4]));
    }
    l.push((wire::head(3, 1, 5, 0), &[4, 12]));
    let mut b = wire::head(3, 1, 5, 6);
    b.extend(wire::string(b"m"));
    b.extend([1]);
    b.extend(wire::string(b"a"));
    b.push(0x0f);
    l.push((b, &[4]));
    let mut b = wire::head(3, 1, 5, 6);
    b.extend(wire::string(&[0xff, 0xfe]));
    b.push(0);
    l.push((b, &[4]));
    l.push((vec![], &[4]));
    l
}

pub fn early_frames() -> Vec<In> {
    let mut l = vec![
        nt(false, 1, 1, tagged(1, 1)),
        nt(true, 1, 1, tagged(2, 1)),
        nt(false, 0, 1, vec![]),
        In::Disc(0, "bye".into()),
        In::Disc(99, "".into()),
        In::Other(Frame::AgentHello(AgentHello { version: v(2, 0), max_frame_size: 16380, capabilities: vec![] })),
        In::Other(Frame::AgentAck(AgentAck { fragmented: false, aborted: false, stream_id: 1, frame_id: 1, actions: vec![] })),
        In::Other(Frame::agent_disconnect(Error::Normal, "x")),
        In::Hello(Hello { versions: vec![v(1, 0)], ..Hello::new() }),
        In::Hello(Hello { versions: vec![v(3, 0), v(1, 5)], ..Hello::new().hc(Some(true)) }),
        In::TooLong(0x0010_0000),
        In::TooLong(u32::MAX),
        In::Eof(vec![]),
        In::Eof(vec![0, 0, 0, 20, 1, 0, 0]),
    ];
    l.extend(bad_hellos().into_iter().map(|(b, s)| In::Bad(b, s)));
    l.extend([vec![], vec![0u8; 4], b"GET / HTTP/1.1\r\n".to_vec(), vec![0xff; 30]].into_iter().map(|b| In::Bad(b, &[4])));
    l
}

/// Every frame type with the flags, ids and contents frames have; None where SPOP leaves it open.
fn any_frame(c: &mut Ctx, after: bool) -> Option<In> {
    let ty = c.choose(256) as u8;
    let fl = *c.of(&[1u32, 0, 3, 2]);
    let (sid, fid) = *c.of(&[(0u64, 0u64), (1, 1), (0, 1), (1, 0)]);
    let tail = |f: &Frame, n: usize| wire::body(f)[n..].to_vec();
    let contents = [
        vec![],
        tail(&crate::p_codec::notify(false, 1, 1, tagged(1, 1)), 7),
        tail(&Frame::AgentAck(AgentAck { fragmented: false, aborted: false, stream_id: 1, frame_id: 1, actions: vec![Action::UnsetVar { scope: haproxy_spop::Scope::Request, name: "v".into() }] }), 7),
        In::Hello(Hello::new()).bytes()[11..].to_vec(),
        In::Disc(0, "bye".into()).bytes()[11..].to_vec(),
        In::Hello(Hello::new().hc(Some(true))).bytes()[11..].to_vec(),
        tail(&Frame::AgentHello(AgentHello { version: v(2, 0), max_frame_size: 16380, capabilities: vec![] }), 7),
    ];
    let mut b = wire::head(ty, fl, sid, fid);
    b.extend(c.of(&contents));
    let unset: &'static [u32] = &[4, 11, 12, 10];
    Some(match wire::parse(&b) {
        wire::Verdict::Frame(f) => In::As(b, Box::new(match f {
            Frame::HaproxyHello(h) => In::Hello(Hello { versions: h.supported_versions, mfs: h.max_frame_size, caps: h.capabilities, hc: h.healthcheck, engine: h.engine_id }),
            Frame::HaproxyDisconnect(d) => In::Disc(d.status_code, d.message),
            Frame::HaproxyNotify(n) => In::Notify { frag: n.fragmented, sid: n.stream_id, fid: n.frame_id, msgs: n.messages },
            f => In::Other(f),
        })),
        wire::Verdict::Reject(_) => In::Bad(b, match ty {
            0 => unset,
            1 => &[4, 5, 6, 7, 12],
            _ => &[4, 12],
        }),
        _ if !after && ty != 1 => In::Bad(b, &[4, 12]),
        _ => return None,
    })
}

fn every_type(r: &mut Run, after: bool) {
    let what = if after {
        "frames of all 256 types with 4 flag values, 4 id pairs and 7 contents after the hello, then a notification; fragmentation agreed or not"
    } else {
        "frames of all 256 types with 4 flag values, 4 id pairs and 7 contents first on a connection, then a notification, a hello and a notification"
    };
    r.go(cfg(if after { "every type" } else { "every type first" }, what), |c| {
        let Some(i) = any_frame(c, after) else {
            c.eval(1);
            return Ok(());
        };
        let caps: &[Capability] = if after && c.flag() { &ALL } else { &[] };
        let sh = Sh::new(c);
        let conf = Conf::new().caps(&ALL);
        let mut ins = if after { vec![In::Hello(Hello::new().caps(caps))] } else { vec![] };
        ins.push(i);
        ins.push(nt(false, 1, 1, tagged(3, 1)));
        if !after {
            ins.push(In::Hello(Hello::new().caps(caps)));
            ins.push(nt(false, 2, 1, tagged(4, 1)));
        }
        let w = W::new();
        let mut s = Sim::new(&conf, w.clone());
        let mut m = Model::new(&conf);
        play(&mut s, &mut m, &ins, Deliver::Lockstep, &noter(sh))?;
        m.check_calls(&w)?;
        let (got, _) = s.got()?;
        sh.state(&(kinds(&got), s.ended()));
        sh.eval(1);
        Ok(())
    });
}

pub fn c18(r: &mut Run) {
    every_type(r, false);
    let depth = r.q3(2usize, 3, 4);
    r.go(cfg("first frames", "every sequence of 1 to 4 (thorough: 5) frames after the connect from 32 kinds: hellos good, bad, unsupported and health checks, notifications, fragments, disconnects, agent frames, garbage, oversized, end of stream; delivered in four ways; with the service maker working, failing or slow"), |c| {
        let sh = Sh::new(c);
        let early = early_frames();
        let mut alpha = vec![In::Hello(Hello::new()), In::Hello(Hello::new().hc(Some(true))), In::Hello(Hello::new().caps(&ALL).hc(Some(false)))];
        alpha.extend(early);
        let conf = Conf::new().caps(&ALL);
        let how = *c.of(&DELIVER);
        let mk = c.choose(4);
        let n = alpha.len();
        let mut ins = vec![alpha[c.choose(n)].clone()];
        for d in 0..depth {
            if ins.last().unwrap().ends_stream().is_some() {
                break;
            }
            let k = sh.choose(if d == 0 { n + 1 } else { 9 });
            if k == 0 {
                break;
            }
            ins.push(alpha[k - 1].clone());
        }
        let w = W::new();
        let mut m = Model::new(&conf);
        match mk {
            1 => {
                w.get().make = Box::new(|_| Mk::Err("no service today".into()));
                m.make_fails = Some("no service today".into());
            }
            2 => w.get().make = Box::new(|_| Mk::Later),
            3 => {
                w.get().make = Box::new(|_| Mk::LaterErr("no service today".into()));
                m.make_fails = Some("no service today".into());
            }
            _ => {}
        }
        let mut s = Sim::new(&conf, w.clone());
        if mk >= 2 {
            // nothing may be sent or called while the service is being made
            for i in &ins {
                i.feed(&s);
            }
            s.settle()?;
            let makes = w.get().makes;
            if makes > 0 {
                ensure!(s.peer.out().is_empty(), "something was sent before the service was made");
                ensure!(!s.ended(), "the connection ended while the service is being made");
                ensure!(w.get().calls == 0, "the service was called before the handshake ended");
                w.release_make(0);
            }
            s.settle()?;
            for i in &ins {
                sh.note(|| i.brief());
                m.push(i.clone());
            }
            m.check(&s)?;
        } else {
            play(&mut s, &mut m, &ins, how, &noter(sh))?;
        }
        m.check_calls(&w)?;
        let (got, _) = s.got()?;
        if let Some(f) = got.first() {
            ensure!(matches!(f, Frame::AgentHello(_) | Frame::AgentDisconnect(_)), "the first frame sent is {:?}", f.frame_type());
        }
        sh.state(&(kinds(&got), s.ended()));
        sh.eval(1);
        Ok(())
    });
}

pub fn c19(r: &mut Run) {
    let d = r.q3(2usize, 3, 4);
    r.go(cfg("health checks", "hello asking for a health check, not asking or silent about it, with an engine id, an empty one or none, at each place among its items, with each version and capability outcome, followed by up to 3 (thorough: 4) frames of 8 kinds sent with it, after it, bytewise or in pieces"), |c| {
        let sh = Sh::new(c);
        let conf = Conf { caps: subset(&ALL, [0, 1, 7][c.choose(3)]), versions: if c.flag() { vec![v(2, 0)] } else { vec![v(1, 0), v(2, 1)] }, ..Conf::new() };
        let hc = [Some(true), Some(false), None][c.choose(3)];
        let engine = [Some("engine".to_string()), None, Some(String::new())][c.choose(3)].clone();
        let h = Hello { engine, versions: [vec![v(2, 0)], vec![v(2, 1), v(1, 0)], vec![v(2, 0), v(2, 1)]][c.choose(3)].clone(), ..Hello::new().hc(hc).caps(*c.of(&[&[FRAG, PIPE] as &[_], &[]])) };
        let after = [
            nt(false, 1, 1, tagged(1, 2)),
            nt(true, 2, 1, tagged(2, 1)),
            In::Hello(Hello::new()),
            In::Hello(Hello::new().hc(Some(true))),
            In::Disc(0, "bye".into()),
            In::Bad(vec![0xff; 8], &[4]),
            In::TooLong(1 << 20),
            In::Eof(vec![]),
        ];
        let mut tail = vec![];
        for _ in 0..d {
            let k = sh.choose(after.len() + 1);
            if k == 0 {
                break;
            }
            tail.push(after[k - 1].clone());
        }
        let how = *c.of(&DELIVER);
        let mut ins = vec![In::Hello(h.clone())];
        ins.extend(tail.clone());
        let w = W::new();
        // a maker that fails must not matter for a health check
        let mkfail = hc == Some(true) && c.flag();
        if mkfail {
            w.get().make = Box::new(|_| Mk::Err("no".into()));
        }
        let mut s = Sim::new(&conf, w.clone());
        let mut m = Model::new(&conf);
        play(&mut s, &mut m, &ins, how, &noter(sh))?;
        m.check_calls(&w)?;
        let (got, _) = s.got()?;
        sh.state(&(kinds(&got), s.ended()));
        sh.eval(1);
        if how == Deliver::Lockstep && tail.is_empty() {
            // the flag at every place among the items and as other types
            let items = [
                wire::kv("supported-versions", &wire::versions(&h.versions)),
                wire::kv("max-frame-size", &Typed::Uint32(h.mfs)),
                wire::kv("capabilities", &wire::caps(&h.caps)),
                wire::kv("engine-id", &Typed::String("e".into())),
            ];
            for at in 0..=4 {
                let mut b = wire::head(1, 1, 0, 0);
                for (i, x) in items.iter().enumerate() {
                    if i == at {
                        if let Some(x) = hc {
                            b.extend(wire::kv("healthcheck", &Typed::Boolean(x)));
                        }
                    }
                    b.extend(x);
                }
                if at == 4 {
                    if let Some(x) = hc {
                        b.extend(wire::kv("healthcheck", &Typed::Boolean(x)));
                    }
                }
                raw_hello(c, &conf, &b, h.clone())?;
            }
        }
        Ok(())
    });
    r.go(cfg("slow transport", "the health check reply on a transport that takes it bytewise, waits or blocks: the connection ends only after it was sent whole"), |c| {
        let sh = Sh::new(c);
        let conf = Conf::new();
        let hc = c.flag();
        let chunk = 1 + c.choose(60);
        let block = c.flag();
        let w = W::new();
        let mut s = Sim::new(&conf, w.clone());
        let mut m = Model::new(&conf);
        let mut k = 0u32;
        s.peer.0.borrow_mut().on_write = Some(Box::new(move |n| {
            k += 1;
            if k % 2 == 1 {
                if block { WriteAns::Block } else { WriteAns::Wait }
            } else {
                WriteAns::Take(chunk.min(n))
            }
        }));
        let ins = [In::Hello(Hello::new().hc(Some(hc))), nt(false, 1, 1, tagged(1, 1))];
        for i in &ins {
            i.feed(&s);
            m.push(i.clone());
        }
        for _ in 0..400 {
            s.settle()?;
            if s.peer.0.borrow().write_waker.is_none() {
                break;
            }
            ensure!(!s.ended(), "the connection ended before its reply was sent");
            s.peer.unblock_write();
        }
        m.check(&s)?;
        m.check_calls(&w)?;
        sh.state(&(hc, chunk, block));
        sh.eval(1);
        Ok(())
    });
}

/// Scripted answers: what the service does with call n.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum How {
    Now,
    /// after other work had a chance to run
    Yield,
    Later,
}

/// Feeds inputs and releases answers in every order; model and connection are compared after each
/// step.  `hows[n]` is how call n is answered.
fn interleave(sh: Sh, conf: &Conf, ins: Vec<In>, hows: Vec<How>, reply: fn(usize, &[Message]) -> Reply, slow: bool) -> Res {
    let w = W::new();
    let h2 = hows.clone();
    w.get().answer = Box::new(move |n, _, m| {
        let a = match reply(n, m) {
            Reply::Ok(a) => Ans::Ok(a),
            Reply::Err(e) => Ans::Err(e),
            _ => Ans::Never,
        };
        match h2.get(n).copied().unwrap_or(How::Now) {
            How::Now => a,
            How::Yield => Ans::After(0, Box::new(a)),
            How::Later => Ans::Later,
        }
    });
    let mut s = Sim::new(conf, w.clone());
    if slow {
        let mut k = 0u32;
        s.peer.0.borrow_mut().on_write = Some(Box::new(move |n| {
            k += 1;
            if k % 3 == 1 {
                WriteAns::Wait
            } else {
                WriteAns::Take(n.min(5))
            }
        }));
    }
    let mut m = Model::new(conf);
    let h3 = hows.clone();
    m.auto = Box::new(move |n, msgs| if h3.get(n) == Some(&How::Later) { None } else { Some(reply(n, msgs)) });
    let mut left: VecDeque<In> = ins.into();
    loop {
        // more input, or the answer that is due
        let pend = m.pending.is_some();
        let k = match (left.is_empty(), pend) {
            (true, false) => break,
            (false, false) => 0,
            (true, true) => 1,
            (false, true) => sh.choose(2),
        };
        if k == 0 {
            let i = left.pop_front().unwrap();
            sh.note(|| i.brief());
            i.feed(&s);
            m.push(i);
        } else {
            let n = m.calls.len() - 1;
            let (_, _, msgs) = m.pending.clone().unwrap();
            let r = reply(n, &msgs);
            sh.note(|| format!("call {n} is answered"));
            w.release(n, match &r {
                Reply::Ok(a) => Ans::Ok(a.clone()),
                Reply::Err(e) => Ans::Err(e.clone()),
                _ => Ans::Never,
            });
            m.reply(r);
        }
        s.settle()?;
        m.check(&s)?;
        m.check_calls(&w)?;
        let (got, _) = s.got()?;
        sh.state(&(kinds(&got), m.calls.len(), m.pending.is_some(), left.len(), s.ended()));
    }
    sh.eval(1);
    Ok(())
}

fn echo_reply(_: usize, m: &[Message]) -> Reply {
    Reply::Ok(echo(m))
}

/// The connection against the model, with given answers; the services' readiness included.
fn answered(sh: Sh, conf: &Conf, ins: Vec<In>, replies: Vec<Reply>, delay: u64, how: Deliver) -> Res {
    let w = W::new();
    let r2 = replies.clone();
    w.get().answer = Box::new(move |n, _, m| {
        let a = match r2.get(n).cloned().unwrap_or(Reply::Ok(echo(m))) {
            Reply::Ok(a) => Ans::Ok(a),
            Reply::Err(e) => Ans::Err(e),
            _ => Ans::Never,
        };
        if delay > 0 { Ans::After(delay, Box::new(a)) } else { a }
    });
    let mut s = Sim::new(conf, w.clone());
    let mut m = Model::new(conf);
    if delay == 0 {
        m.auto = Box::new(move |n, x| Some(replies.get(n).cloned().unwrap_or(Reply::Ok(echo(x)))));
        play(&mut s, &mut m, &ins, how, &noter(sh))?;
    } else {
        m.auto = Box::new(|_, _| None);
        for i in &ins {
            sh.note(|| i.brief());
            i.feed(&s);
            m.push(i.clone());
        }
        s.settle()?;
        while let Some((_, _, msgs)) = m.pending.clone() {
            m.check(&s)?;
            s.advance(delay)?;
            let n = m.calls.len() - 1;
            m.reply(replies.get(n).cloned().unwrap_or(Reply::Ok(echo(&msgs))));
            m.check(&s)?;
        }
    }
    m.check_calls(&w)?;
    let g = w.get();
    ensure!(g.unready_calls.is_empty(), "{:?} called without having reported readiness since the previous call", g.unready_calls);
    drop(g);
    let (got, _) = s.got()?;
    sh.state(&(kinds(&got), s.ended()));
    sh.eval(1);
    Ok(())
}

/// Contents that something careless might tidy up, in notifications and answers.
fn contents(r: &mut Run) {
    r.go(cfg("contents", "every pair of notifications with the same or different ids and 19 message lists (equal messages, equal names or arguments, unsorted, empty, blank, long), answered with 14 action lists (equal, overwriting, undoing, unsorted) or with what they hold, at once or later, pipelined or not"), |c| {
        let ms = odd_messages();
        let acts = odd_actions();
        let (a, b) = (c.choose(ms.len()), c.choose(ms.len()));
        let k = c.choose(acts.len() + 1);
        let sh = Sh::new(c);
        let same = sh.choose(2) == 1;
        let ins = vec![In::Hello(Hello::new()), nt(false, 1, 1, ms[a].clone()), nt(false, 1 + !same as u64, 1, ms[b].clone()), nt(false, 1, 1, ms[a].clone())];
        let replies = match acts.get(k) {
            Some(x) => vec![Reply::Ok(x.clone()), Reply::Ok(acts[(k + a) % acts.len()].clone()), Reply::Ok(x.clone())],
            None => vec![],
        };
        let (delay, how) = [(0, Deliver::Lockstep), (0, Deliver::Burst), (7, Deliver::Burst)][sh.choose(3)];
        answered(sh, &Conf::new(), ins, replies, delay, how)
    });
}

/// Failures with texts that something careless might tidy up.
fn texts(r: &mut Run) {
    r.go(cfg("texts", "the first to third notification, of 19 message lists, whole or in fragments, fails with each of 37 texts (empty, blank, several lines, unprintable, up to 16300 bytes long, like other errors), at once or up to 1 ms before the limit; further notifications follow"), |c| {
        let ms = odd_messages();
        let mut ts = odd_texts();
        // none too long for the agreed size
        ts.extend([1025usize, 4097, 8193, 16300].map(|n| "0123456789".repeat(n.div_ceil(10))));
        let m = c.choose(ms.len());
        let t = c.choose(ts.len());
        let sh = Sh::new(c);
        let n = sh.choose(3);
        let frag = sh.choose(2) == 1;
        let mut ins = vec![In::Hello(Hello::new().caps(&ALL))];
        let mut replies = vec![];
        for i in 0..n {
            ins.push(nt(false, 1, 1, ms[m].clone()));
            replies.push(Reply::Ok(echo(&ms[m])));
            let _ = i;
        }
        if frag {
            ins.push(nt(true, 1, 1, ms[m].clone()));
        }
        ins.push(nt(false, 1, 1, ms[m].clone()));
        ins.push(nt(false, 1, 2, ms[m].clone()));
        ins.push(nt(false, 1, 1, ms[m].clone()));
        replies.push(Reply::Err(ts[t].clone()));
        let (delay, how) = [(0, Deliver::Lockstep), (0, Deliver::Burst), (1, Deliver::Burst), (999, Deliver::Burst)][sh.choose(4)];
        answered(sh, &Conf::new().caps(&ALL), ins, replies, delay, how)
    });
}

pub fn c20(r: &mut Run) {
    contents(r);
    let ids: [(u64, u64); 5] = [(1, 1), (1, 2), (2, 1), (1 << 32 | 1, 1), (0, u64::MAX)];
    let n = r.q(3usize, 4);
    r.go(cfg("interleavings", "every sequence of up to 3 (thorough: 4) notifications over 5 ids (repeated ids included) with 0 to 2 messages, each answered at once, after a yield or later, all orders of input and answers, fast and slow transport, with no, one and all capabilities"), |c| {
        let sh = Sh::new(c);
        let caps = subset(&ALL, [0, 2, 7][c.choose(3)]);
        let conf = Conf::new().caps(&ALL);
        let slow = c.flag();
        let mut ins = vec![In::Hello(Hello::new().caps(&caps))];
        let mut hows = vec![];
        for i in 0..n {
            let k = if i == 0 { sh.choose(15) } else { sh.choose(10) };
            if k == 0 && i > 0 {
                break;
            }
            let id = if i == 0 { ids[k % 5] } else { ids[(k - 1) % 3] };
            let cnt = if i == 0 { k / 5 } else { (k - 1) / 3 };
            ins.push(nt(false, id.0, id.1, tagged(i as u32, cnt)));
            hows.push([How::Now, How::Yield, How::Later][sh.choose(3)]);
        }
        interleave(sh, &conf, ins, hows, echo_reply, slow)
    });
    r.go(cfg("ids", "every pair of notifications with stream and frame ids from 14 boundary values"), |c| {
        let vals: [u64; 14] = [1, 2, 0, 239, 240, 255, 2287, 2288, 65535, 65536, (1 << 32) - 1, 1 << 32, 1 << 63, u64::MAX];
        let a = (*c.of(&vals), *c.of(&vals));
        if a.1 == 0 {
            return Ok(());
        }
        let conf = Conf::new().caps(&ALL);
        let mut ins = vec![In::Hello(Hello::new())];
        let mut t = 0;
        for s in vals {
            for f in vals {
                if f != 0 {
                    ins.push(nt(false, s, f, tagged(t, 1)));
                    ins.push(nt(false, a.0, a.1, tagged(t + 1, 1)));
                    t += 2;
                }
            }
        }
        let how = *c.of(&[Deliver::Burst, Deliver::Drip, Deliver::Pieces]);
        let w = W::new();
        let mut s = Sim::new(&conf, w.clone());
        let mut m = Model::new(&conf);
        play(&mut s, &mut m, &ins, how, &|_| ())?;
        m.check_calls(&w)?;
        c.state(&(a, how));
        c.eval(ins.len() as u64);
        Ok(())
    });
    let (long, big) = r.q((70_000usize, 60usize), (200_000, 400));
    r.go(cfg("long", "70000 (thorough: 200000) pipelined notifications in one burst, bytewise and in pieces; messages with every number of arguments 0..255, 0..60 (thorough: 400) messages; every kind of typed value in messages and in actions; answers with 0..100 actions"), |c| {
        let conf = Conf::new().caps(&ALL).mfs(1 << 20);
        let mut ins = vec![In::Hello(Hello::new().mfs(1 << 20).caps(&[PIPE]))];
        let what = c.choose(4);
        match what {
            0 => ins.extend((0..long).map(|i| nt(false, (i % 3) as u64, 1 + (i % 7) as u64, tagged(i as u32, i % 4)))),
            1 => ins.extend((0..256usize).map(|i| nt(false, i as u64, 1, vec![msg("m", &(0..i).map(|_| ("a", Typed::Null)).collect::<Vec<_>>()), msg("n", &[])]))),
            2 => ins.extend((0..big).map(|i| nt(false, i as u64, 1, tagged(i as u32, i)))),
            _ => ins.extend(crate::p_codec::typed_values().into_iter().enumerate().map(|(i, t)| nt(false, i as u64, 9, vec![msg("m", &[("k", t.clone()), ("l", t)])]))),
        }
        let how = *c.of(&DELIVER);
        let how = if what == 0 && how == Deliver::Lockstep { Deliver::Burst } else { how };
        let w = W::new();
        let mut s = Sim::new(&conf, w.clone());
        let mut m = Model::new(&conf);
        if what == 2 {
            let f = |n: usize, _: &[Message]| (0..n % 101).map(|i| if i % 3 == 0 { Action::UnsetVar { scope: Scope::Process, name: format!("u{i}") } } else { Action::SetVar { scope: Scope::Response, name: "v".into(), value: Typed::Int64(-(i as i64)) } }).collect::<Vec<_>>();
            w.get().answer = Box::new(move |n, _, x| Ans::Ok(f(n, x)));
            m.auto = Box::new(move |n, x| Some(Reply::Ok(f(n, x))));
        }
        if how == Deliver::Lockstep {
            // comparing everything after each of many steps is quadratic: compare at the end
            for i in &ins {
                i.feed(&s);
                m.push(i.clone());
                s.settle()?;
            }
            m.check(&s)?;
        } else {
            play(&mut s, &mut m, &ins, how, &|_| ())?;
        }
        m.check_calls(&w)?;
        c.state(&(what, how));
        c.eval(ins.len() as u64);
        Ok(())
    });
    let top = r.q(1100usize, 6000);
    r.go(cfg("counts", "every number of messages up to 1099 (thorough: 5999) in one notification and of actions in its answer, as many, fewer or none of the other; alone, and with the next one in the same burst"), |c| {
        let n = c.choose(top);
        let (x, y) = [(n, n), (n, 0), (0, n), (n, n / 2 + 1)][c.choose(4)];
        let conf = Conf::new().caps(&ALL).mfs(1 << 20);
        let tag = |k: usize, n: usize| -> Vec<Message> { (0..n).map(|i| msg(&format!("{k}.{i}"), &[])).collect() };
        let ins = vec![In::Hello(Hello::new().mfs(1 << 20).caps(&ALL)), nt(false, 7, n as u64 + 1, tag(0, x)), nt(false, n as u64, 8, tag(1, 2))];
        let f = move |k: usize| -> Vec<Action> {
            (0..if k == 0 { y } else { 1 }).map(|i| Action::SetVar { scope: Scope::Session, name: format!("v{}", i % 700), value: Typed::Uint32((k + i) as u32) }).collect()
        };
        let w = W::new();
        w.get().answer = Box::new(move |k, _, _| Ans::Ok(f(k)));
        let mut s = Sim::new(&conf, w.clone());
        let mut m = Model::new(&conf);
        m.auto = Box::new(move |k, _| Some(Reply::Ok(f(k))));
        play(&mut s, &mut m, &ins, *c.of(&[Deliver::Burst, Deliver::Lockstep]), &|_| ())?;
        m.check_calls(&w)?;
        c.state(&(x, y));
        c.eval(1);
        Ok(())
    });
    let many = r.q(20_000u64, 200_000);
    r.go(cfg("every id", "notifications with every stream id and every frame id up to 20000 (thorough: 200000), in one burst: rising, falling, each with the other's complement"), |c| {
        let k = c.choose(4);
        let conf = Conf::new().caps(&ALL);
        let mut ins = vec![In::Hello(Hello::new().caps(&ALL))];
        ins.extend((1..=many).map(|i| {
            let (s, f) = [(i, 1), (1, i), (i - 1, many + 1 - i), (!i, i << 20)][k];
            nt(false, s, f, vec![])
        }));
        let w = W::new();
        w.get().answer = Box::new(|_, _, _| Ans::Ok(vec![]));
        let mut s = Sim::new(&conf, w.clone());
        let mut m = Model::new(&conf);
        m.auto = Box::new(|_, _| Some(Reply::Ok(vec![])));
        play(&mut s, &mut m, &ins, Deliver::Burst, &|_| ())?;
        m.check_calls(&w)?;
        c.state(&k);
        c.eval(many);
        Ok(())
    });
}

pub fn c21(r: &mut Run) {
    r.go(cfg("contents", "every three fragments with 19 message lists each (equal messages, equal names or arguments, unsorted, empty, blank, long), another notification's fragments between or not"), |c| {
        let ms = odd_messages();
        let (a, b) = (c.choose(ms.len()), c.choose(ms.len()));
        let sh = Sh::new(c);
        let d = sh.choose(ms.len());
        let mut ins = vec![In::Hello(Hello::new().caps(&ALL)), nt(true, 1, 1, ms[a].clone())];
        let between = sh.choose(3);
        if between == 1 {
            ins.push(nt(true, 2, 1, ms[a].clone()));
        }
        ins.push(nt(true, 1, 1, ms[b].clone()));
        if between == 2 {
            ins.push(nt(false, 1, 2, ms[a].clone()));
        }
        ins.push(nt(false, 1, 1, ms[d].clone()));
        if between == 1 {
            ins.push(nt(false, 2, 1, ms[b].clone()));
        }
        ins.push(nt(false, 1, 1, ms[a].clone()));
        answered(sh, &Conf::new().caps(&ALL), ins, vec![], 0, Deliver::Burst)
    });
    let depth = r.q(5usize, 6);
    r.go(cfg("agreed", "every sequence of up to 5 (thorough: 6) fragments, final or not, of 3 notifications with 0 to 2 messages, on a connection that agreed on fragmentation; answers at once or later"), |c| {
        let sh = Sh::new(c);
        let conf = Conf::new().caps(&ALL);
        let keys = [(1u64, 1u64), (1, 2), (2, 1)];
        let later = c.flag();
        let mut ins = vec![In::Hello(Hello::new().caps(&[FRAG, PIPE]))];
        for i in 0..depth {
            let k = sh.choose(7);
            if k == 0 {
                break;
            }
            let id = keys[(k - 1) / 2];
            ins.push(nt(k % 2 == 1, id.0, id.1, tagged(i as u32, (i + k) % 3)));
        }
        interleave(sh, &conf, ins, if later { vec![How::Later; 8] } else { vec![] }, echo_reply, false)
    });
    r.go(cfg("delivery", "2 notifications of 1 to 4 fragments in every interleaving, delivered in four ways, ids differing in high and low bits"), |c| {
        let sh = Sh::new(c);
        let conf = Conf::new().caps(&[FRAG]);
        let pairs = [((1u64, 1u64), (1u64, 2u64)), ((1, 1), (2, 1)), ((1 << 32 | 5, 1), (5, 1)), ((5, 1 << 32 | 1), (5, 1)), ((3, 4), (4, 3)), ((1 << 63, 1), (0, 1))];
        let (a, b) = *c.of(&pairs);
        let (na, nb) = (1 + c.choose(4), 1 + c.choose(3));
        let how = *c.of(&DELIVER);
        let mut ins = vec![In::Hello(Hello::new().caps(&ALL))];
        let (mut x, mut y) = (0, 0);
        while x < na || y < nb {
            let k = if x == na { 1 } else if y == nb { 0 } else { sh.choose(2) };
            if k == 0 {
                x += 1;
                ins.push(nt(x < na, a.0, a.1, tagged(x as u32, x % 3)));
            } else {
                y += 1;
                ins.push(nt(y < nb, b.0, b.1, tagged(100 + y as u32, 1)));
            }
        }
        // the ids are used again
        ins.push(nt(false, a.0, a.1, tagged(200, 1)));
        let w = W::new();
        let mut s = Sim::new(&conf, w.clone());
        let mut m = Model::new(&conf);
        play(&mut s, &mut m, &ins, how, &noter(sh))?;
        m.check_calls(&w)?;
        let (got, _) = s.got()?;
        sh.state(&(kinds(&got), names(&m.calls)));
        sh.eval(1);
        Ok(())
    });
    let sizes: Vec<usize> = r.q(vec![0, 1, 255, 256, 1025, 4097], vec![0, 1, 2, 255, 256, 1000, 1025, 2500, 4097, 5001]);
    r.go(cfg("big", "every three fragments with up to 4097 (thorough: 5001) messages each"), |c| {
        let mut ins = vec![In::Hello(Hello::new().mfs(70_000).caps(&ALL))];
        for i in 0..3 {
            let n = *c.of(&sizes);
            ins.push(nt(i < 2, 1, 1, (0..n).map(|k| Message { name: format!("{i}.{k}"), args: vec![] }).collect()));
        }
        ins.push(nt(false, 1, 1, tagged(9, 1)));
        let sh = Sh::new(c);
        answered(sh, &Conf::new().mfs(80_000).caps(&ALL), ins, vec![], 0, Deliver::Burst)
    });
    let long = r.q(70_000usize, 200_000);
    r.go(cfg("long", "one notification of 1..70000 (thorough: 200000) fragments; 70000 (thorough: 200000) notifications pending at once"), |c| {
        let conf = Conf::new().caps(&[FRAG]);
        let mut ins = vec![In::Hello(Hello::new().caps(&ALL))];
        let k = c.choose(12);
        if k < 10 {
            let n = [1, 2, 15, 16, 17, 63, 64, 65, 257, long][k];
            ins.extend((0..n).map(|i| nt(i + 1 < n, 7, 8, tagged(i as u32, 1))));
        } else {
            ins.extend((0..long).map(|i| nt(true, i as u64, 8, tagged(i as u32, 1))));
            ins.extend((0..long).map(|i| if k == 10 { i } else { long - 1 - i }).map(|i| nt(false, i as u64, 8, tagged(i as u32, 1))));
        }
        let w = W::new();
        let mut s = Sim::new(&conf, w.clone());
        let mut m = Model::new(&conf);
        play(&mut s, &mut m, &ins, Deliver::Burst, &|_| ())?;
        m.check_calls(&w)?;
        c.state(&k);
        c.eval(1);
        Ok(())
    });
    r.go(cfg("not agreed", "every sequence of up to 4 whole notifications and fragments where agent, peer or both lack fragmentation, delivered in four ways"), |c| {
        let sh = Sh::new(c);
        let (ca, cp) = [(0, 7), (6, 7), (7, 0), (7, 6), (6, 6), (0, 0), (2, 3), (4, 1)][c.choose(8)];
        let conf = Conf::new().caps(&subset(&ALL, ca));
        let how = *c.of(&DELIVER);
        let mut ins = vec![In::Hello(Hello::new().caps(&subset(&ALL, cp)))];
        for i in 0..4 {
            let k = sh.choose(5);
            if k == 0 {
                break;
            }
            ins.push(nt(k > 2, 1, [1, 2][k % 2], tagged(i, (i as usize + k) % 3)));
        }
        let w = W::new();
        let mut s = Sim::new(&conf, w.clone());
        let mut m = Model::new(&conf);
        play(&mut s, &mut m, &ins, how, &noter(sh))?;
        m.check_calls(&w)?;
        let (got, _) = s.got()?;
        sh.state(&(kinds(&got), names(&m.calls)));
        sh.eval(1);
        Ok(())
    });
    r.go(cfg("two connections", "two connections of one agent use the same ids: every merge of two sequences of up to 3 fragments each"), |c| {
        let sh = Sh::new(c);
        let conf = Conf::new().caps(&ALL);
        let w = W::new();
        let rt = conf.runtime(&w);
        let clock = Clock::new();
        let mk = |name| Sim::on(clock.clone(), rt.clone(), w.clone(), Default::default(), name);
        let mut s = [mk("connection A: "), mk("connection B: ")];
        let caps = [vec![FRAG], if c.flag() { vec![FRAG, PIPE] } else { vec![] }];
        let mut m = [Model::new(&conf), Model::new(&conf)];
        for i in 0..2 {
            let h = In::Hello(Hello::new().caps(&caps[i]));
            h.feed(&s[i]);
            m[i].push(h);
            s[i].settle()?;
        }
        let mut all: Vec<Vec<Message>> = vec![];
        for t in 0..6u32 {
            let k = sh.choose(9);
            if k == 8 {
                break;
            }
            let (x, frag, id) = (k & 1, k & 2 == 0, (1, 1 + (k as u64 >> 2)));
            let i = nt(frag, id.0, id.1, tagged(t, 1 + k % 2));
            sh.note(|| format!("{}: {}", ["A", "B"][x], i.brief()));
            if s[x].ended() {
                break;
            }
            i.feed(&s[x]);
            let before = m[x].calls.len();
            m[x].push(i);
            all.extend(m[x].calls[before..].iter().cloned());
            for y in 0..2 {
                s[y].settle()?;
                m[y].check(&s[y])?;
            }
        }
        let calls: Vec<_> = w.calls().into_iter().map(|c| c.1).collect();
        ensure!(calls == all, "the services were called with {:?}, expected {:?}", names(&calls), names(&all));
        sh.state(&names(&all));
        sh.eval(1);
        Ok(())
    });
    r.go(cfg("continuations", "fragmented notifications as HAProxy sends them: the first fragment as a NOTIFY, the others as frames of type UNSET with the rest of the payload"), |c| {
        let conf = Conf::new().caps(&[FRAG]);
        let w = W::new();
        let mut s = Sim::new(&conf, w.clone());
        In::Hello(Hello::new().caps(&ALL)).feed(&s);
        s.settle()?;
        let whole = tagged(1, 3);
        let cut = c.choose(3);
        s.send(&wire::wire(&crate::p_codec::notify(true, 7, 8, whole[..cut].to_vec())));
        let mut b = wire::head(0, 1, 7, 8);
        b.extend(whole[cut..].iter().flat_map(wire::message));
        s.send_frame(&b);
        s.settle()?;
        let (got, _) = s.got()?;
        let calls: Vec<_> = w.calls().into_iter().map(|c| c.1).collect();
        c.note(|| format!("{:?}", kinds(&got)));
        c.state(&(cut, kinds(&got)));
        if calls == vec![whole.clone()] && got.len() == 2 && matches!(&got[1], Frame::AgentAck(a) if (a.stream_id, a.frame_id) == (7, 8)) {
            return Ok(());
        }
        // never half a notification
        ensure!(calls.is_empty(), "the service was called with {:?}, the notification is {:?}", names(&calls), names(&[whole]));
        let refused = matches!(got.last(), Some(Frame::AgentDisconnect(d)) if d.status_code == 4) && s.ended();
        let msg = format!("a notification continued in an UNSET frame is not put together: {:?}", kinds(&got));
        if refused {
            known_finding("C21", "unset-continuation", msg)
        } else {
            Err(Violation(msg))
        }
    });
    r.go(cfg("aborted", "a notification of 1 to 3 fragments that the peer aborts with its last frame never reaches the service; other notifications do"), |c| {
        let conf = Conf::new().caps(&[FRAG]);
        let w = W::new();
        let mut s = Sim::new(&conf, w.clone());
        In::Hello(Hello::new().caps(&ALL)).feed(&s);
        s.settle()?;
        let n = c.choose(3);
        let unset = n > 0 && c.flag();
        for i in 0..n {
            s.send(&wire::wire(&crate::p_codec::notify(true, 7, 8, tagged(i as u32, 1))));
        }
        s.settle()?;
        let b = wire::head(if unset { 0 } else { 3 }, 3, 7, 8);
        s.send_frame(&b);
        s.settle()?;
        let calls: Vec<_> = w.calls().into_iter().map(|c| c.1).collect();
        let (got, _) = s.got()?;
        c.state(&(n, unset, kinds(&got)));
        if calls.is_empty() {
            return Ok(());
        }
        let msg = format!("a notification aborted by the peer reached the service with {:?}", names(&calls));
        let as_final = calls.len() == 1 && calls[0].len() == n && !unset;
        if as_final {
            known_finding("C21", "abort-ignored", msg)
        } else {
            Err(Violation(msg))
        }
    });
}

/// What happens late in the life of a connection.
#[derive(Clone, Debug)]
pub enum Late {
    /// the peer sends this
    Input(In),
    /// the service fails
    Fails,
    /// the service answers a millisecond before its time is up, or a millisecond late
    Slow(bool),
    /// a shutdown request: nothing in hand, or a notification that is answered then
    Stop(bool),
    /// an ACK of the agreed size, or one byte more
    Reply(bool),
    /// a notification of the agreed size, or one byte more
    Size(bool),
    /// the owner says good-bye
    Bye,
}

/// Each of `evs` after n answered notifications: what has gone before does not matter.
pub fn late(r: &mut Run, evs: Vec<Late>) {
    let mut ns: Vec<usize> = (0..r.q(140usize, 700)).collect();
    ns.extend(r.q(vec![255usize, 256, 257, 511, 512, 1000], vec![999, 1000, 1023, 1024, 1025, 4095, 4096, 10_000]));
    r.go(cfg("late", "what this property is about after every number of answered notifications up to 139 and some up to 1000 (thorough: 699, 10000), whole or in two fragments each: the same as after few"), |c| {
        let ev = c.of(&evs).clone();
        let n = *c.of(&ns);
        let frags = c.flag();
        c.note(|| format!("{ev:?} after {n} notifications{}", if frags { " in fragments" } else { "" }));
        let conf = Conf::new().caps(&ALL).mpt(100).mfs(300);
        let agreed = 280usize;
        let w = W::new();
        let ev2 = ev.clone();
        let big = move |more: bool| {
            let mk = |pad: usize| vec![Action::SetVar { scope: Scope::Request, name: "v".into(), value: Typed::Binary(vec![b'x'; pad].into()) }];
            let len = |a: Vec<Action>| wire::body(&Frame::AgentAck(AgentAck { fragmented: false, aborted: false, stream_id: 1, frame_id: 1, actions: a })).len();
            (0..300).map(mk).find(|a| len(a.clone()) == agreed + more as usize).expect("no such reply")
        };
        let at = move |k: usize, x: &[Message]| -> (Ans, Option<Reply>) {
            if k != n {
                return (Ans::Ok(echo(x)), Some(Reply::Ok(echo(x))));
            }
            match &ev2 {
                Late::Fails => (Ans::Err("no more".into()), Some(Reply::Err("no more".into()))),
                Late::Slow(too) => (Ans::After(if *too { 101 } else { 99 }, Box::new(Ans::Ok(echo(x)))), None),
                Late::Stop(true) => (Ans::Later, None),
                Late::Reply(more) => (Ans::Ok(big(*more)), Some(Reply::Ok(big(*more)))),
                _ => (Ans::Ok(vec![]), Some(Reply::Ok(vec![]))),
            }
        };
        let at2 = at.clone();
        w.get().answer = Box::new(move |k, _, x| at(k, x).0);
        let mut m = Model::new(&conf);
        m.auto = Box::new(move |k, x| at2(k, x).1);
        let stop = Rc::new(tokio::sync::Notify::new());
        let mut s = if let Late::Bye = ev {
            let stop = stop.clone();
            Sim::owned(&conf, w.clone(), tokio_util::sync::CancellationToken::new(), move |mut conn| async move {
                tokio::select! {
                    biased;
                    _ = conn.serve() => {}
                    _ = stop.notified() => {}
                }
                conn.disconnect(Error::Timeout, "enough").await.map_err(|e| e.to_string())
            })
        } else {
            Sim::new(&conf, w.clone())
        };
        let mut ins = vec![In::Hello(Hello::new().caps(&ALL).mfs(agreed as u32))];
        for i in 0..n {
            let id = 1 + (i % 5) as u64;
            if frags {
                ins.push(nt(true, 1, id, tagged(i as u32, 1)));
            }
            ins.push(nt(false, 1, id, tagged(i as u32, 1)));
        }
        for i in &ins {
            i.feed(&s);
            m.push(i.clone());
            s.settle()?;
        }
        m.check(&s)?;
        let one = nt(false, 1, 1, tagged(7, 1));
        let feed = |s: &mut Sim, m: &mut Model, i: In| -> Res {
            i.feed(s);
            m.push(i);
            s.settle()
        };
        match &ev {
            Late::Input(i) => feed(&mut s, &mut m, i.clone())?,
            Late::Fails | Late::Reply(_) => feed(&mut s, &mut m, one)?,
            Late::Slow(too) => {
                feed(&mut s, &mut m, one)?;
                s.advance(98)?;
                m.check(&s)?;
                m.reply(if *too { Reply::Timeout } else { Reply::Ok(echo(&tagged(7, 1))) });
                s.advance(2)?;
            }
            Late::Stop(hand) => {
                if *hand {
                    feed(&mut s, &mut m, one)?;
                }
                s.tok.cancel();
                s.settle()?;
                if *hand {
                    ensure!(!s.ended() && w.get().in_hand == 1, "the notification in hand was dropped by the shutdown");
                    w.release(n, Ans::Ok(echo(&tagged(7, 1))));
                    m.reply(Reply::Ok(echo(&tagged(7, 1))));
                    s.settle()?;
                }
                check_shut(&m, &s, true)?;
                c.state(&(format!("{ev:?}"), n, frags));
                c.eval(1);
                return m.check_calls(&w);
            }
            Late::Size(more) => feed(&mut s, &mut m, if *more { In::TooLong(agreed as u32 + 1) } else { sized_notify(agreed) })?,
            Late::Bye => {
                stop.notify_one();
                s.settle()?;
                let (got, rest) = s.got()?;
                ensure!(rest == 0 && got.len() == m.want.len() + 1 && got.last() == Some(&Frame::agent_disconnect(Error::Timeout, "enough")) && matches!(s.result(), Some(Ok(()))), "the owner's disconnect came out as {:?} and {rest} bytes, {:?}", got.get(m.want.len()..).map(kinds), s.result());
                c.state(&(format!("{ev:?}"), n, frags));
                c.eval(1);
                return m.check_calls(&w);
            }
        }
        m.check(&s)?;
        m.check_calls(&w)?;
        let out = s.peer.out();
        for f in wire::split(&out).0.iter().skip(1) {
            ensure!(f.len() <= agreed, "a frame of {} bytes was sent, agreed are {agreed}", f.len());
        }
        if !m.closed() {
            // and it goes on
            feed(&mut s, &mut m, nt(false, 9, 9, tagged(8, 1)))?;
            m.check(&s)?;
        }
        c.state(&(format!("{ev:?}"), n, frags));
        c.eval(1);
        Ok(())
    });
}

pub fn c22(r: &mut Run) {
    late(r, {
        let mut l: Vec<Late> = [
            In::Hello(Hello::new()),
            In::Other(Frame::AgentHello(AgentHello { version: v(2, 0), max_frame_size: 16380, capabilities: vec![] })),
            In::Other(Frame::agent_disconnect(Error::Normal, "x")),
            In::Disc(0, "bye".into()),
            In::Disc(99, "trouble".into()),
            In::TooLong(301),
            In::Eof(vec![]),
            In::Eof(vec![0, 0]),
            In::Fail,
        ]
        .into_iter()
        .map(Late::Input)
        .collect();
        l.extend(bad_frames().into_iter().step_by(4).map(|(b, s)| Late::Input(In::Bad(b, s))));
        l
    });
    every_type(r, true);
    every_type(r, false);
    r.go(cfg("first", "each of 30 frames that may not come first on a connection, delivered in four ways, then a hello and a notification"), |c| {
        let how = *c.of(&DELIVER);
        let l = early_frames();
        let i = c.choose(l.len());
        let sh = Sh::new(c);
        let conf = Conf::new().caps(&ALL);
        let ins = [l[i].clone(), In::Hello(Hello::new()), nt(false, 1, 1, tagged(1, 1))];
        let w = W::new();
        let mut s = Sim::new(&conf, w.clone());
        let mut m = Model::new(&conf);
        play(&mut s, &mut m, &ins, how, &noter(sh))?;
        m.check_calls(&w)?;
        sh.state(&(i, how));
        sh.eval(1);
        Ok(())
    });
    let mut errs: Vec<In> = vec![
        In::Hello(Hello::new()),
        In::Hello(Hello::new().hc(Some(true))),
        In::Hello(Hello { versions: vec![v(9, 9)], ..Hello::new() }),
        In::Other(Frame::AgentHello(AgentHello { version: v(2, 0), max_frame_size: 16380, capabilities: vec![] })),
        In::Other(Frame::AgentAck(AgentAck { fragmented: false, aborted: false, stream_id: 1, frame_id: 1, actions: vec![] })),
        In::Other(Frame::agent_disconnect(Error::Normal, "x")),
        In::Disc(0, "bye".into()),
        In::Disc(0, "".into()),
        In::Disc(99, "trouble".into()),
        In::Disc(4, "you sent nonsense".into()),
        In::Disc(77777, "?".into()),
        In::TooLong(16385),
        In::TooLong(65536),
        In::TooLong(0x8000_0000),
        In::TooLong(u32::MAX),
        In::Fail,
    ];
    let whole = nt(false, 9, 9, tagged(9, 1)).bytes();
    for n in 0..whole.len() {
        errs.push(In::Eof(whole[..n].to_vec()));
    }
    errs.extend(bad_frames().into_iter().map(|(b, s)| In::Bad(b, s)));
    let n = r.q3(2usize, 3, 5);
    r.go(cfg("errors", "up to 3 (thorough: 5) notifications or fragments answered at once or later, then one of 80 ends: unexpected, undecodable and oversized frames, disconnects with known and unknown status, end of stream after every byte of a frame, read failure; then further frames; every order of input and answers"), |c| {
        let sh = Sh::new(c);
        let conf = Conf::new().caps(&ALL);
        let slow = c.flag();
        let mut ins = vec![In::Hello(Hello::new().caps(if c.flag() { &ALL } else { &[] }))];
        let mut hows = vec![];
        for i in 0..n {
            match sh.choose(4) {
                0 => break,
                1 => {
                    ins.push(nt(true, 1, 1 + i as u64, tagged(i as u32, 1)));
                }
                k => {
                    ins.push(nt(false, 1, 1 + i as u64, tagged(i as u32, 1)));
                    hows.push(if k == 2 { How::Now } else { How::Later });
                }
            }
        }
        let e = errs[sh.choose(errs.len())].clone();
        ins.push(e.clone());
        if e.ends_stream().is_none() {
            match sh.choose(4) {
                0 => {}
                1 => ins.push(nt(false, 5, 5, tagged(50, 1))),
                2 => ins.push(In::Disc(0, "bye".into())),
                _ => {
                    ins.push(In::Bad(vec![0xff; 9], &[4]));
                    ins.push(In::Hello(Hello::new()));
                }
            }
        }
        interleave(sh, &conf, ins, hows, echo_reply, slow)
    });
    r.go(cfg("delivery", "each of the ends after two notifications, in one burst, bytewise and in pieces"), |c| {
        let sh = Sh::new(c);
        let conf = Conf::new().caps(&ALL);
        let how = *c.of(&DELIVER[1..]);
        let e = errs[c.choose(errs.len())].clone();
        let mut ins = vec![In::Hello(Hello::new()), nt(false, 1, 1, tagged(1, 1)), nt(false, 2, 1, tagged(2, 2)), e.clone()];
        if e.ends_stream().is_none() {
            ins.push(nt(false, 3, 1, tagged(3, 1)));
            ins.push(In::Eof(vec![]));
        }
        let w = W::new();
        let mut s = Sim::new(&conf, w.clone());
        let mut m = Model::new(&conf);
        play(&mut s, &mut m, &ins, how, &noter(sh))?;
        m.check_calls(&w)?;
        let (got, _) = s.got()?;
        sh.state(&(kinds(&got), s.ended()));
        sh.eval(1);
        Ok(())
    });
    r.go(cfg("sizes", "agent sizes 256..70000 and every declared length within 3 of the limit, agreed sizes larger than the agent's"), |c| {
        let sh = Sh::new(c);
        let a = *c.of(&[256usize, 300, 4096, 16384, 70000]);
        let conf = Conf::new().mfs(a);
        let d = c.choose(6);
        let len = a - 2 + d;
        let w = W::new();
        let mut s = Sim::new(&conf, w.clone());
        let mut m = Model::new(&conf);
        w.get().answer = Box::new(|_, _, _| Ans::Ok(vec![]));
        m.auto = Box::new(|_, _| Some(Reply::Ok(vec![])));
        let ins = vec![In::Hello(Hello::new().mfs(100000)), if len > a { In::TooLong(len as u32) } else { sized_notify(len) }, nt(false, 1, 2, tagged(1, 1))];
        play(&mut s, &mut m, &ins, *c.of(&[Deliver::Lockstep, Deliver::Burst]), &noter(sh))?;
        m.check_calls(&w)?;
        c.state(&(a, d));
        c.eval(1);
        Ok(())
    });
}

/// A notify whose frame is exactly n bytes long (without the length prefix).
fn sized_notify(n: usize) -> In {
    for (name, pad) in ["m", "mm"].iter().flat_map(|x| (n.saturating_sub(40)..n).map(move |p| (x, p))) {
        let f = vec![msg(name, &[("a", Typed::Binary(vec![b'x'; pad].into()))])];
        if wire::body(&crate::p_codec::notify(false, 1, 1, f.clone())).len() == n {
            return nt(false, 1, 1, f);
        }
    }
    panic!("no frame of {n} bytes")
}

/// The limit of a connection, both ways, for every agreed size.
pub fn agreed(r: &mut Run, replies: bool) {
    let top = r.q(2400usize, 9000);
    let mut sizes: Vec<usize> = (256..top).collect();
    sizes.extend((4090..4104).chain(8180..8210).chain(16370..16400).chain(32760..32776).chain(65530..65546).chain([100_000, 131_072, 262_144]));
    r.go(cfg("agreed", "every agreed size from 256 to 2399 (thorough: 8999) bytes and around the powers of two up to 2^18, announced by the peer, configured, or both: a frame of that size passes, then one of a byte more does not"), |c| {
        let n = *c.of(&sizes);
        let (p, a) = [(n, 1 << 20), (1 << 20, n), (n, n)][c.choose(3)];
        let mk = |pad: usize, name: &str| vec![Action::SetVar { scope: Scope::Request, name: name.into(), value: Typed::Binary(vec![b'x'; pad].into()) }];
        let len = |a: Vec<Action>| wire::body(&Frame::AgentAck(AgentAck { fragmented: false, aborted: false, stream_id: 1, frame_id: 1, actions: a })).len();
        let reply = |n: usize| ["v", "vv"].iter().flat_map(|x| (n - 40..n).rev().map(|p| mk(p, x))).find(|a| len(a.clone()) == n).expect("no such reply");
        let conf = Conf::new().caps(&ALL).mfs(a);
        let w = W::new();
        let big = replies.then(|| [reply(n - 1), reply(n), reply(n + 1)]);
        let b2 = big.clone();
        w.get().answer = Box::new(move |k, _, _| Ans::Ok(b2.as_ref().map(|b| b[k].clone()).unwrap_or_default()));
        let mut m = Model::new(&conf);
        m.auto = Box::new(move |k, _| Some(Reply::Ok(big.as_ref().map(|b| b[k].clone()).unwrap_or_default())));
        let mut s = Sim::new(&conf, w.clone());
        let mut ins = vec![In::Hello(Hello::new().caps(&ALL).mfs(p as u32))];
        if replies {
            ins.extend([nt(false, 1, 1, vec![]), nt(false, 1, 1, vec![]), nt(false, 1, 1, vec![])]);
        } else {
            ins.extend([sized_notify(n - 1), sized_notify(n), In::TooLong(n as u32 + 1)]);
        }
        for i in ins {
            i.feed(&s);
            m.push(i);
            s.settle()?;
        }
        m.check(&s)?;
        m.check_calls(&w)?;
        ensure!(m.closed(), "a frame of {} bytes passes", n + 1);
        for f in wire::split(&s.peer.out()).0.iter().skip(1) {
            ensure!(f.len() <= n, "a frame of {} bytes was sent, agreed are {n}", f.len());
        }
        c.state(&(n, p, a));
        c.eval(1);
        Ok(())
    });
}

pub fn c23(r: &mut Run) {
    let mut l: Vec<Duration> = (2..r.q(400u64, 4000)).map(Duration::from_millis).collect();
    l.extend((1..40u64).flat_map(|k| [k * 1000 - 1, k * 1000, k * 1000 + 1, k * 60_000, k * 60_000 + 1, k * 1024, k * 3_600_000 + 7]).map(Duration::from_millis));
    l.extend((2..40u64).map(|k| Duration::from_micros(k * 1000 + 500)));
    limits_of(r, "every limit", "every processing time from 2 to 399 (thorough: 3999) ms, those around every second up to 39 s, minutes, hours, and some with half a millisecond: the first or second notification, whole or in fragments, is answered never or just within the time", l);
    late(r, vec![Late::Fails, Late::Slow(false), Late::Slow(true)]);
    texts(r);
    limits(r);
    let n = r.q3(3usize, 6, 10);
    r.go(cfg("answers", "every sequence of up to 6 (thorough: 10) notifications answered with actions, an error (several texts) or never, at 5 times within and beyond the limit, for 5 limits from 10 ms to 50 days, pipelined or one by one, with pauses between; virtual time is stepped to 1 ms before and after every event"), |c| {
        let sh = Sh::new(c);
        let limit = *c.of(&[10u64, 1000, 15000, 3_600_000, (1 << 32) + 5000]);
        let conf = Conf::new().caps(&ALL).mpt(limit);
        let burst = c.flag();
        let pause = c.choose(3);
        let mut script: Vec<(u64, Reply)> = vec![];
        for i in 0..n {
            // the last outcome may end the connection
            let k = sh.choose(9);
            let x = match k {
                0 => (0, Reply::Ok(vec![])),
                1 => (limit / 2, Reply::Ok(vec![Action::UnsetVar { scope: Scope::Request, name: format!("x{i}") }])),
                2 => (limit - 2, Reply::Ok(vec![])),
                3 => (0, Reply::Err("service failed".into())),
                4 => (limit - 2, Reply::Err("späte Störung \u{1F4A5}".into())),
                5 => (limit + 2, Reply::Timeout),
                6 => (u64::MAX, Reply::Timeout),
                7 => (limit * 3, Reply::Timeout),
                _ => (limit / 2, Reply::Err(String::new())),
            };
            let end = !matches!(x.1, Reply::Ok(_));
            script.push(x);
            if end {
                break;
            }
        }
        sh.note(|| format!("limit {limit}, answers {script:?}"));
        let w = W::new();
        let sc = script.clone();
        w.get().answer = Box::new(move |n, _, _| {
            let (d, r) = sc[n.min(sc.len() - 1)].clone();
            let a = match r {
                Reply::Ok(a) => Ans::Ok(a),
                Reply::Err(e) => Ans::Err(e),
                _ => Ans::Ok(vec![Action::UnsetVar { scope: Scope::Request, name: "too-late".into() }]),
            };
            match d {
                0 => a,
                u64::MAX => Ans::Never,
                d => Ans::After(d, Box::new(a)),
            }
        });
        let mut s = Sim::new(&conf, w.clone());
        let mut m = Model::new(&conf);
        m.auto = Box::new(|_, _| None);
        let hello = In::Hello(Hello::new().caps(&ALL));
        hello.feed(&s);
        m.push(hello);
        s.settle()?;
        m.check(&s)?;
        if pause == 2 {
            // an idle connection is not timed
            s.advance(limit * 2)?;
            m.check(&s)?;
        }
        let ins: Vec<In> = (0..script.len()).map(|i| {
            // the time does not depend on the ids
            let i = i as u64;
            let (sid, fid) = [(1, 1 + i), (u64::MAX - i, (1 << 32) + i), (70_000 + i, 5000 + 2 * i)][pause];
            nt(false, sid, fid, tagged(i as u32, 1))
        }).collect();
        if burst {
            for i in &ins {
                i.feed(&s);
                m.push(i.clone());
            }
        }
        for (i, (d, rep)) in script.iter().enumerate() {
            if !burst {
                ins[i].feed(&s);
                m.push(ins[i].clone());
            }
            s.settle()?;
            let at = (*d).min(limit);
            if at > 0 {
                m.check(&s)?;
                // up to 1 ms before the event nothing happens
                let step = if pause == 1 { at / 3 } else { 0 };
                let mut t = 0;
                for x in [step, 2 * step, at - 1] {
                    if x > t {
                        s.advance(x - t)?;
                        t = x;
                        m.check(&s).map_err(|e| Violation(format!("{t} ms into notification {i} (limit {limit} ms): {}", e.0)))?;
                    }
                }
                m.reply(rep.clone());
                s.advance(2)?;
            } else {
                m.reply(rep.clone());
            }
            if burst && script.get(i + 1).is_some_and(|n| n.0 == 0) {
                // the next one is answered in the same moment
                continue;
            }
            m.check(&s).map_err(|e| Violation(format!("{} ms into notification {i} (limit {limit} ms): {}", if at > 0 { at + 1 } else { 0 }, e.0)))?;
            if pause == 1 && !burst {
                s.advance(limit - 1)?;
                m.check(&s)?;
            }
        }
        m.check_calls(&w)?;
        if let Some((_, Reply::Err(e))) = script.last() {
            let (got, _) = s.got()?;
            if let Some(Frame::AgentDisconnect(d)) = got.last() {
                ensure!(d.message == *e, "the disconnect says {:?}, the service {e:?}", d.message);
            }
        }
        // nothing more afterwards
        if s.ended() {
            nt(false, 8, 8, tagged(8, 1)).feed(&s);
            s.advance(limit * 4)?;
            m.check(&s)?;
            ensure!(w.get().in_hand == 0, "a call is still in hand after the connection ended");
        }
        let (got, _) = s.got()?;
        sh.state(&(limit, kinds(&got), burst, pause));
        sh.eval(1);
        Ok(())
    });
    r.go(cfg("readiness", "a service that becomes ready 0, 1, 99, 101 or 5000 ms after a notification came, or never, and answers at once or after 1 to 200 ms, for the first to third notification, with a limit of 100 ms: answered within the time, or ended at the limit where it was not even ready or never answers"), |c| {
        let conf = Conf::new().caps(&ALL).mpt(100);
        let before = c.choose(3);
        let ready = *c.of(&[0u64, 1, 50, 99, 101, 5000, u64::MAX]);
        let ans = *c.of(&[0u64, 1, 40, u64::MAX]);
        let frag = c.flag();
        let total = ready.saturating_add(ans);
        let w = W::new();
        w.get().answer = Box::new(move |n, _, m| if n < before || ans == 0 { Ans::Ok(echo(m)) } else if ans == u64::MAX { Ans::Never } else { Ans::After(ans, Box::new(Ans::Ok(echo(m)))) });
        let is = Arc::new(std::sync::atomic::AtomicBool::new(ready == 0));
        let is2 = is.clone();
        w.get().ready = Box::new(move |who, n| match who {
            Who::Svc(_) if n >= before && !is2.load(std::sync::atomic::Ordering::SeqCst) => Rd::Wait,
            _ => Rd::Ready,
        });
        let mut s = Sim::new(&conf, w.clone());
        let mut m = Model::new(&conf);
        m.auto = Box::new(move |n, m| if n < before { Some(Reply::Ok(echo(m))) } else { None });
        let h = In::Hello(Hello::new().caps(&ALL));
        let mut ins = vec![h];
        ins.extend((0..before).map(|i| nt(false, 1, 1 + i as u64, tagged(i as u32, 1))));
        if frag {
            ins.push(nt(true, 2, 1, tagged(8, 1)));
        }
        ins.push(nt(false, 2, 1, tagged(9, 1)));
        c.note(|| format!("{before} before, ready after {ready}, answer after {ans}, fragments {frag}"));
        for i in ins {
            s.advance(30)?;
            i.feed(&s);
            let last = matches!(i, In::Notify { frag: false, sid: 2, .. });
            m.push(i);
            s.settle()?;
            if !last {
                m.check(&s)?;
            }
        }
        let all = m.pending.clone().map(|p| p.2).unwrap_or_default();
        if ready > 0 && ready < 100 {
            if ready > 1 {
                s.advance(ready - 1)?;
            }
            m.check(&s)?;
            s.advance(1)?;
            is.store(true, std::sync::atomic::Ordering::SeqCst);
            w.wake_ready(Who::Svc(0));
            s.settle()?;
        }
        if total < 100 {
            if ans > 0 {
                m.check(&s)?;
                s.advance(ans)?;
            }
            s.advance(1)?;
            m.reply(Reply::Ok(echo(&all)));
            m.check(&s)?;
            m.check_calls(&w)?;
        } else if ready > 100 {
            s.advance(99)?;
            m.check(&s)?;
            s.advance(3)?;
            m.reply(Reply::Timeout);
            m.check(&s)?;
            ensure!(w.calls().len() == before, "a service that was not ready in time was called");
        } else if ans == u64::MAX {
            // whether the limit counts from the notification or from readiness is left open
            if ready < 99 {
                s.advance(99 - ready)?;
                m.check(&s)?;
            }
            s.advance(ready + 3)?;
            m.reply(Reply::Timeout);
            m.check(&s)?;
        }
        c.state(&(before, ready, ans, frag));
        c.eval(1);
        Ok(())
    });
    r.go(cfg("fragments", "time spent waiting between fragments is not processing time"), |c| {
        let conf = Conf::new().caps(&ALL).mpt(100);
        let gap = *c.of(&[1u64, 99, 100, 101, 5000]);
        let n = 1 + c.choose(3);
        let d = *c.of(&[0u64, 50, 98, 102]);
        let w = W::new();
        w.get().answer = Box::new(move |_, _, m| if d == 0 { Ans::Ok(echo(m)) } else { Ans::After(d, Box::new(Ans::Ok(echo(m)))) });
        let mut s = Sim::new(&conf, w.clone());
        let mut m = Model::new(&conf);
        m.auto = Box::new(|_, _| None);
        let h = In::Hello(Hello::new().caps(&ALL));
        h.feed(&s);
        m.push(h);
        s.settle()?;
        for i in 0..=n {
            let x = nt(i < n, 1, 1, tagged(i as u32, 1));
            x.feed(&s);
            m.push(x);
            s.settle()?;
            if i < n {
                s.advance(gap)?;
                m.check(&s)?;
            }
        }
        if d > 0 {
            m.check(&s)?;
            s.advance(d.min(100) - 1)?;
            m.check(&s)?;
        }
        let all = m.pending.clone().map(|p| p.2).unwrap_or_default();
        m.reply(if d > 100 { Reply::Timeout } else { Reply::Ok(echo(&all)) });
        s.advance(2)?;
        m.check(&s)?;
        m.check_calls(&w)?;
        c.state(&(gap, n, d));
        c.eval(1);
        Ok(())
    });
    r.go(cfg("maker", "a maker that fails at once or later, with several texts, for hellos with each capability set; the agent's next connection is served"), |c| {
        let sh = Sh::new(c);
        let conf = Conf::new().caps(&ALL);
        let text = *c.of(&["no service", "", "späte Störung"]);
        let later = c.flag();
        let good_first = c.flag();
        let h = In::Hello(Hello::new().caps(&subset(&ALL, c.choose(8))));
        let w = W::new();
        w.get().make = Box::new(move |n| if (n == 0) == good_first || n > 1 { Mk::Ok } else if later { Mk::LaterErr(text.into()) } else { Mk::Err(text.into()) });
        let rt = conf.runtime(&w);
        let clock = Clock::new();
        let mut ms = vec![];
        for k in 0..3 {
            let mut s = Sim::on(clock.clone(), rt.clone(), w.clone(), Default::default(), "");
            let mut m = Model::new(&conf);
            if !((k == 0) == good_first || k > 1) {
                m.make_fails = Some(text.into());
            }
            h.feed(&s);
            nt(false, 1, 1, tagged(k, 1)).feed(&s);
            s.settle()?;
            if later && m.make_fails.is_some() {
                ensure!(s.peer.out().is_empty() && !s.ended(), "the handshake was answered before the service was made");
                w.release_make(k as usize);
                s.settle()?;
            }
            m.push(h.clone());
            m.push(nt(false, 1, 1, tagged(k, 1)));
            m.check(&s)?;
            sh.state(&(k, kinds(&s.got()?.0)));
            ms.push(m);
        }
        ensure!(w.get().calls == 2, "{} calls for two served connections", w.get().calls);
        sh.eval(1);
        Ok(())
    });
}

/// What poll_ready says before each call.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Gate {
    Open,
    /// pending n times, waking itself
    Soon(u32),
    /// pending until the harness opens it
    Shut,
    Fails,
}

struct Gates {
    maker: Vec<Gate>,
    svc: Vec<Gate>,
    /// gates the harness opened
    opened: BTreeSet<(bool, usize)>,
    soon: std::collections::HashMap<(bool, usize), u32>,
    waits: Vec<(Who, usize)>,
}

pub fn c24(r: &mut Run) {
    contents(r);
    texts(r);
    let n = r.q3(3usize, 5, 8);
    r.go(cfg("readiness", "maker and service ready, ready after one or two wake-ups, ready when told, or failing (for good, just once, or after a wake-up), before each of up to 5 (thorough: 8) calls, in every combination, answers at once or later, input pipelined or one by one"), |c| {
        let sh = Sh::new(c);
        let conf = Conf::new().caps(&ALL).mpt(60_000);
        let kinds_ = [Gate::Open, Gate::Soon(1), Gate::Soon(2), Gate::Shut, Gate::Fails];
        let mg = *c.of(&kinds_);
        let mut svc = vec![];
        if mg != Gate::Fails {
            for _ in 0..n {
                let g = kinds_[sh.choose(5)];
                svc.push(g);
                if g == Gate::Fails {
                    break;
                }
            }
        }
        let fails = mg == Gate::Fails || svc.last() == Some(&Gate::Fails);
        let how = if fails { c.choose(3) } else { 0 };
        let burst = c.flag();
        let later = c.flag();
        let mklater = c.flag();
        sh.note(|| format!("maker {mg:?}, service {svc:?}, failing {}, burst {burst}, answers later {later}, made later {mklater}", ["for good", "once", "after a wake-up"][how]));
        let gates = Arc::new(Mutex::new(Gates { maker: vec![mg], svc: svc.clone(), opened: Default::default(), soon: Default::default(), waits: vec![] }));
        let w = W::new();
        let g2 = gates.clone();
        w.get().ready = Box::new(move |who, n| {
            let mut g = g2.lock().unwrap();
            let mk = who == Who::Maker;
            let k = if mk { g.maker.get(n) } else { g.svc.get(n) }.copied().unwrap_or(Gate::Open);
            match k {
                Gate::Open => Rd::Ready,
                Gate::Soon(m) => {
                    let e = g.soon.entry((mk, n)).or_default();
                    *e += 1;
                    if *e <= m {
                        Rd::Soon
                    } else {
                        Rd::Ready
                    }
                }
                Gate::Shut => {
                    if g.opened.contains(&(mk, n)) {
                        Rd::Ready
                    } else {
                        g.waits.push((who, n));
                        Rd::Wait
                    }
                }
                Gate::Fails => {
                    let e = g.soon.entry((mk, n)).or_default();
                    *e += 1;
                    match (how, *e) {
                        (1, 2..) => Rd::Ready,
                        (2, 1) => Rd::Soon,
                        _ => Rd::Err("not ready today".into()),
                    }
                }
            }
        });
        if later {
            w.get().answer = Box::new(|_, _, _| Ans::Later);
        }
        if mklater {
            w.get().make = Box::new(|_| Mk::Later);
        }
        let mut s = Sim::new(&conf, w.clone());
        let mut m = Model::new(&conf);
        let h = In::Hello(Hello::new().caps(&ALL));
        let ins: Vec<In> = (0..svc.len()).map(|i| nt(false, 1, 1 + i as u64, tagged(i as u32, 1))).collect();
        h.feed(&s);
        if burst {
            ins.iter().for_each(|i| i.feed(&s));
        }
        // opens the gate the connection must be waiting at
        let open = |s: &mut Sim, who: Who, n: usize| -> Res {
            s.settle()?;
            let mk = who == Who::Maker;
            ensure!(!s.ended(), "the connection ended while {who:?} is not ready");
            ensure!(gates.lock().unwrap().waits.contains(&(who, n)), "{who:?} was not asked whether it is ready for call {n}");
            gates.lock().unwrap().opened.insert((mk, n));
            ensure!(w.wake_ready(who), "nobody waits for the readiness of {who:?}");
            s.settle()
        };
        if mg == Gate::Shut {
            s.settle()?;
            // waiting for it has no limit
            for ms in [999, 60_000, 86_400_000] {
                s.advance(ms)?;
                ensure!(s.peer.out().is_empty() && w.get().makes == 0, "the maker was called before it was ready, or not waited for");
            }
            open(&mut s, Who::Maker, 0)?;
        }
        if mg == Gate::Fails {
            s.settle()?;
            let (got, rest) = s.got()?;
            ensure!(got.len() == 1 && matches!(got[0], Frame::AgentDisconnect(_)) && rest == 0 && s.ended(), "the maker reports failure, the peer receives {:?}", kinds(&got));
            ensure!(w.get().makes == 0 && w.get().calls == 0, "the maker was called although it reported failure");
            sh.eval(1);
            return Ok(());
        }
        if mklater {
            s.settle()?;
            ensure!(w.get().makes == 1, "the maker is ready and was not called");
            w.release_make(0);
        }
        m.auto = Box::new(|_, _| None);
        m.push(h);
        s.settle()?;
        let fails_next = |i: usize| svc.get(i) == Some(&Gate::Fails);
        for i in 0..svc.len() {
            if !burst {
                if !fails_next(i) {
                    m.check(&s)?;
                }
                ins[i].feed(&s);
            }
            s.settle()?;
            match svc[i] {
                Gate::Shut => {
                    ensure!(w.get().calls == i, "the service was called before it was ready");
                    open(&mut s, Who::Svc(0), i)?;
                }
                Gate::Fails => {
                    ensure!(w.get().calls == i, "the service was called although it reported failure");
                    m.push(ins[i].clone());
                    m.calls.pop();
                    m.reply(Reply::Unready(String::new()));
                    m.check(&s)?;
                    break;
                }
                _ => {}
            }
            ensure!(w.get().calls > i, "the service is ready and was not called");
            m.push(ins[i].clone());
            let msgs = m.pending.clone().unwrap().2;
            if later {
                if !fails_next(i + 1) {
                    m.check(&s)?;
                }
                w.release(i, Ans::Ok(echo(&msgs)));
            }
            m.reply(Reply::Ok(echo(&msgs)));
            s.settle()?;
            // otherwise the next one has been answered, too
            let stops = !burst || later || i + 1 == svc.len() || svc[i + 1] == Gate::Shut;
            if !fails_next(i + 1) && stops {
                m.check(&s)?;
            }
        }
        let g = w.get();
        ensure!(g.unready_calls.is_empty(), "{:?} called without having reported readiness since the previous call", g.unready_calls);
        drop(g);
        m.check_calls(&w)?;
        let (got, _) = s.got()?;
        sh.state(&(mg, svc, kinds(&got)));
        sh.eval(1);
        Ok(())
    });
    let many = r.q(300usize, 3000);
    r.go(cfg("long", "300 (thorough: 3000) calls of one service, whole or in fragments, and as many of the maker by one connection after the other: ready at once, after a wake-up or only when told, before each or before every third one"), |c| {
        let sh = Sh::new(c);
        let maker = sh.flag();
        let every = [1, 3][sh.choose(2)];
        let how = sh.choose(3);
        let frags = !maker && sh.flag();
        sh.note(|| format!("{}, {} before {every}, fragments {frags}", if maker { "maker" } else { "service" }, ["ready", "soon", "when told"][how]));
        let conf = Conf::new().caps(&ALL);
        let w = W::new();
        let told = Arc::new(Mutex::new(0usize));
        let t2 = told.clone();
        let mut last = None;
        w.get().ready = Box::new(move |who, n| {
            if (who == Who::Maker) != maker || n % every != 0 {
                return Rd::Ready;
            }
            match how {
                0 => Rd::Ready,
                1 if last != Some(n) => {
                    last = Some(n);
                    Rd::Soon
                }
                1 => Rd::Ready,
                _ if n < *t2.lock().unwrap() => Rd::Ready,
                _ => Rd::Wait,
            }
        });
        let rt = conf.runtime(&w);
        let clock = Clock::new();
        let connect = || -> Result<Sim, Violation> {
            let mut s = Sim::on(clock.clone(), rt.clone(), w.clone(), Default::default(), "");
            In::Hello(Hello::new().caps(&ALL)).feed(&s);
            s.settle()?;
            Ok(s)
        };
        let done = |n: usize| if maker { w.get().makes == n } else { w.get().calls == n };
        let mut s = connect()?;
        for i in 0..many {
            if maker && i > 0 {
                s = connect()?;
            } else if !maker {
                if frags {
                    nt(true, 1, 1 + i as u64, tagged(i as u32, 1)).feed(&s);
                    s.settle()?;
                }
                nt(false, 1, 1 + i as u64, tagged(i as u32, 1)).feed(&s);
                s.settle()?;
            }
            if how == 2 && i % every == 0 {
                ensure!(done(i), "call {} was made before it was ready", i + 1);
                *told.lock().unwrap() = i + 1;
                ensure!(w.wake_ready(if maker { Who::Maker } else { Who::Svc(0) }), "nobody waits for the readiness for call {}", i + 1);
                s.settle()?;
            }
            ensure!(done(i + 1), "call {} was not made", i + 1);
            ensure!(w.get().unready_calls.is_empty(), "call {} without having reported readiness since the previous one", i + 1);
        }
        sh.state(&(maker, every, how, frags));
        sh.eval(many as u64);
        Ok(())
    });
    r.go(cfg("shared maker", "three connections of one agent, their handshakes interleaved with readiness and completion of the shared maker in every order"), |c| {
        let sh = Sh::new(c);
        let conf = Conf::new();
        let w = W::new();
        let opened = Arc::new(Mutex::new(0usize));
        let o2 = opened.clone();
        w.get().ready = Box::new(move |who, n| if who != Who::Maker || n < *o2.lock().unwrap() { Rd::Ready } else { Rd::Wait });
        w.get().make = Box::new(|_| Mk::Later);
        let rt = conf.runtime(&w);
        let clock = Clock::new();
        let mut s: Vec<Sim> = (0..3).map(|_| Sim::on(clock.clone(), rt.clone(), w.clone(), Default::default(), "")).collect();
        let mut sent = 0;
        let mut released = 0;
        for _ in 0..9 {
            let o = *opened.lock().unwrap();
            let makes = w.get().makes;
            let mut can = vec![];
            if sent < 3 {
                can.push(0);
            }
            if o < 3 {
                can.push(1);
            }
            if released < makes {
                can.push(2);
            }
            if can.is_empty() {
                break;
            }
            match can[sh.choose(can.len())] {
                0 => {
                    In::Hello(Hello::new()).feed(&s[sent]);
                    sent += 1;
                    sh.note(|| format!("hello on connection {sent}"));
                }
                1 => {
                    *opened.lock().unwrap() += 1;
                    w.wake_ready(Who::Maker);
                    sh.note(|| "the maker becomes ready for one more".into());
                }
                _ => {
                    w.release_make(released);
                    released += 1;
                    sh.note(|| "a service is made".into());
                }
            }
            for _ in 0..3 {
                for x in s.iter_mut() {
                    x.settle()?;
                }
            }
            let g = w.get();
            ensure!(g.unready_calls.is_empty(), "the maker was called without having reported readiness since the previous call");
            ensure!(g.makes <= sent.min(*opened.lock().unwrap()), "more services are being made than handshakes began or the maker was ready for");
            sh.state(&(sent, released, g.makes, *opened.lock().unwrap()));
        }
        for x in &s {
            let (got, _) = x.got()?;
            ensure!(got.len() == 1 && matches!(got[0], Frame::AgentHello(_)), "a handshake was not completed: {:?}", kinds(&got));
        }
        ensure!(w.get().makes == 3, "{} services for 3 connections", w.get().makes);
        sh.eval(1);
        Ok(())
    });
}

/// After a shutdown: the frames so far as the model has them, at most one normal disconnect more,
/// nothing incomplete.
fn check_shut(m: &Model, s: &Sim, must_end: bool) -> Res {
    let (got, rest) = s.got()?;
    ensure!(rest == 0 || !s.ended(), "the connection ended with {rest} bytes of an incomplete frame sent");
    for (i, w) in m.want.iter().enumerate() {
        let Some(g) = got.get(i) else {
            fail!("after the shutdown frame {} is missing: expected {w:?}, the peer received {:?}", i + 1, kinds(&got))
        };
        match_frame(g, w, usize::MAX)?;
    }
    let n = m.want.len();
    ensure!(got.len() <= n + 1, "after the shutdown the peer received {:?}", kinds(&got));
    if let Some(f) = got.get(n) {
        ensure!(matches!(f, Frame::AgentDisconnect(d) if d.status_code == 0) && s.ended(), "after the shutdown the peer received {:?}", kinds(&got));
    }
    if must_end {
        ensure!(s.ended(), "the connection goes on after its shutdown although nothing is in hand");
    }
    Ok(())
}

fn bias(sh: Sh) {
    verif_sched::set_select(Some(Box::new(move |n| sh.deviate(n as usize) as u32)));
}

pub fn c25(r: &mut Run) {
    late(r, vec![Late::Stop(false), Late::Stop(true)]);
    let b = r.q3(3u32, 6, 12);
    let most = r.q3(2usize, 4, 6);
    r.go(cfg("moments", "shutdown before the first byte, after every byte of a hello and of up to 4 (thorough: 6) notifications or fragments, with the answer at once or outstanding, further notifications already received, or in the same instant as input; every choice of select!'s first branch up to 6 (thorough: 12) departures from the first").bound(b), |c| {
        let sh = Sh::new(c);
        let conf = Conf::new().caps(&ALL);
        let hello = In::Hello(Hello::new().caps(&ALL));
        let k = c.choose(most + 1);
        let mut ins = vec![hello];
        let mut later = vec![];
        for i in 0..k {
            let f = sh.choose(3);
            ins.push(nt(f == 2, 1, 1 + i as u64, tagged(i as u32, 1)));
            if f != 2 {
                later.push(if f == 1 { How::Later } else { How::Now });
            }
        }
        let w = W::new();
        let l2 = later.clone();
        w.get().answer = Box::new(move |n, _, m| if l2.get(n) == Some(&How::Later) { Ans::Later } else { Ans::Ok(echo(m)) });
        let mut s = Sim::new(&conf, w.clone());
        let mut m = Model::new(&conf);
        let l3 = later.clone();
        m.auto = Box::new(move |n, x| if l3.get(n) == Some(&How::Later) { None } else { Some(Reply::Ok(echo(x))) });
        bias(sh);
        // how many inputs are settled before, and how many bytes of the next one; what follows
        // arrives in the same instant as the shutdown or after it
        let done = sh.choose(ins.len() + 1);
        for i in &ins[..done] {
            i.feed(&s);
            m.push(i.clone());
            s.settle()?;
            m.check(&s)?;
        }
        let mut part = 0;
        if let Some(next) = ins.get(done) {
            let bytes = next.bytes();
            part = sh.choose(bytes.len() + 1);
            s.send(&bytes[..part]);
            let when = if part == bytes.len() { 0 } else { sh.choose(2) };
            if when == 1 {
                s.settle()?;
            }
            sh.note(|| format!("{done} frames settled, {part} bytes of the next{}", if when == 1 { " settled" } else { "" }));
            // the rest before or after the shutdown
            let rest = sh.choose(2);
            if rest == 0 && when == 0 {
                s.send(&bytes[part..]);
                for i in &ins[done + 1..] {
                    i.feed(&s);
                }
            }
            s.tok.cancel();
            sh.note(|| "shutdown".into());
            s.settle()?;
            if rest == 1 {
                s.send(&bytes[part..]);
                for i in &ins[done + 1..] {
                    i.feed(&s);
                }
                s.settle()?;
            }
        } else {
            s.tok.cancel();
            sh.note(|| format!("shutdown after {done} frames"));
            s.settle()?;
        }
        // in hand is what was given to the service before
        if m.pending.is_some() {
            ensure!(!s.ended() && w.get().in_hand == 1, "the notification in hand was dropped by the shutdown: {:?}, {} in hand", s.result(), w.get().in_hand);
            check_shut(&m, &s, false)?;
            let n = m.calls.len() - 1;
            let msgs = m.pending.clone().unwrap().2;
            m.queue.clear();
            w.release(n, Ans::Ok(echo(&msgs)));
            m.queue.clear();
            m.reply(Reply::Ok(echo(&msgs)));
            s.settle()?;
        }
        check_shut(&m, &s, true)?;
        m.check_calls(&w)?;
        let (got, _) = s.got()?;
        sh.state(&(k, done, part, kinds(&got)));
        sh.eval(1);
        Ok(())
    });
    r.go(cfg("queued", "shutdown while the first of 3 pipelined notifications is in hand, answered with actions, an error or by time running out").bound(b), |c| {
        let sh = Sh::new(c);
        let conf = Conf::new().mpt(100);
        let how = c.choose(4);
        let extra = c.choose(3);
        let w = W::new();
        w.get().answer = Box::new(|_, _, _| Ans::Later);
        let mut s = Sim::new(&conf, w.clone());
        let mut m = Model::new(&conf);
        m.auto = Box::new(|_, _| None);
        bias(sh);
        let mut ins = vec![In::Hello(Hello::new())];
        ins.extend((0..=extra).map(|i| nt(false, 1, 1 + i as u64, tagged(i as u32, 1))));
        for (n, i) in ins.iter().enumerate() {
            i.feed(&s);
            if n < 2 {
                m.push(i.clone());
            }
        }
        s.settle()?;
        m.check(&s)?;
        s.tok.cancel();
        s.settle()?;
        ensure!(!s.ended(), "the notification in hand was dropped by the shutdown");
        check_shut(&m, &s, false)?;
        match how {
            0 => {
                w.release(0, Ans::Ok(vec![]));
                m.reply(Reply::Ok(vec![]));
            }
            1 => {
                w.release(0, Ans::Err("broken".into()));
                m.reply(Reply::Err("broken".into()));
            }
            2 => {
                s.advance(101)?;
                m.reply(Reply::Timeout);
            }
            _ => {
                s.advance(50)?;
                check_shut(&m, &s, false)?;
                w.release(0, Ans::Ok(vec![Action::UnsetVar { scope: Scope::Session, name: "x".into() }]));
                m.reply(Reply::Ok(vec![Action::UnsetVar { scope: Scope::Session, name: "x".into() }]));
            }
        }
        s.settle()?;
        check_shut(&m, &s, true)?;
        m.check_calls(&w)?;
        sh.state(&(how, extra));
        sh.eval(1);
        Ok(())
    });
    r.go(cfg("blocked writes", "shutdown while the hello reply, an ACK or a disconnect is blocked after every number of bytes, or while its flush is: once the transport goes on the frame is completed and the connection ends").bound(b), |c| {
        let sh = Sh::new(c);
        let conf = Conf::new();
        let what = c.choose(3);
        let w = W::new();
        let mut s = Sim::new(&conf, w.clone());
        let mut m = Model::new(&conf);
        bias(sh);
        let hello = In::Hello(Hello::new());
        let mut ins = vec![];
        if what > 0 {
            hello.feed(&s);
            m.push(hello.clone());
            s.settle()?;
            m.check(&s)?;
        } else {
            ins.push(hello);
        }
        let before = s.peer.out().len();
        match what {
            1 => ins.push(nt(false, 1, 1, tagged(1, 1))),
            2 => ins.push(In::Disc(0, "bye".into())),
            _ => {}
        }
        let at = c.choose(80);
        let flush = at == 79;
        let gate = Rc::new(RefCell::new(false));
        {
            let mut p = s.peer.0.borrow_mut();
            let (g, g2) = (gate.clone(), gate.clone());
            let mut sent = 0;
            p.on_write = Some(Box::new(move |n| {
                if flush || *g.borrow() {
                    return WriteAns::Take(n);
                }
                if sent < at {
                    let t = n.min(at - sent);
                    sent += t;
                    WriteAns::Take(t)
                } else {
                    WriteAns::Block
                }
            }));
            if flush {
                p.on_flush = Some(Box::new(move || if *g2.borrow() { FlushAns::Ok } else { FlushAns::Block }));
            }
        }
        let more = c.flag();
        for i in &ins {
            i.feed(&s);
        }
        if more {
            nt(false, 2, 2, tagged(2, 1)).feed(&s);
        }
        s.settle()?;
        let blocked = s.peer.0.borrow().write_waker.is_some();
        let whole = s.got()?.0.len() - (what > 0) as usize;
        if !blocked || (whole > 0 && !flush) {
            // the whole reply fits before the block: other harnesses
            return Ok(());
        }
        ensure!(!s.ended(), "the connection ended while its reply is being written");
        let calls = w.get().calls;
        s.tok.cancel();
        s.settle()?;
        let part = s.peer.out().len() - before;
        if part > 0 && !flush {
            ensure!(!s.ended(), "the connection ended after {part} bytes of a reply");
        }
        *gate.borrow_mut() = true;
        s.peer.unblock_write();
        s.settle()?;
        for i in &ins {
            m.push(i.clone());
        }
        // a reply of which nothing was written may be given up only if it is no ACK
        let (got, rest) = s.got()?;
        ensure!(rest == 0, "{rest} bytes of an incomplete frame were left");
        if !(part == 0 && what == 0 && got.is_empty()) {
            check_shut(&m, &s, true)?;
        }
        ensure!(s.ended(), "the connection goes on after its shutdown");
        ensure!(w.get().calls == calls && calls == (what == 1) as usize, "{} calls", w.get().calls);
        sh.state(&(what, at, more, part));
        sh.eval(1);
        Ok(())
    });
    r.go(cfg("patience", "a connection that is never shut down, its peer silent after every byte of a hello, fragments and notifications, for 1 ms to 30 days, once or three times; or its transport taking nothing for so long after every byte of the replies, flushes included; it goes on and answers all"), |c| {
        let sh = Sh::new(c);
        let mpt = [1000u64, 15_000, 1][c.choose(3)];
        let conf = Conf::new().caps(&ALL).mpt(mpt);
        let ins = [In::Hello(Hello::new().caps(&ALL)), nt(true, 1, 1, tagged(1, 1)), nt(false, 1, 2, tagged(2, 1)), nt(false, 1, 1, tagged(3, 1)), nt(false, 1, 3, vec![])];
        let all: Vec<u8> = ins.iter().flat_map(|i| i.bytes()).collect();
        let gaps = [1u64, 999, 1000, 1001, 5_000, 14_999, 15_001, 60_000, 3_600_000, 86_400_000, 30 * 86_400_000];
        let gap = *c.of(&gaps);
        let times = 1 + 2 * c.choose(2) as u32;
        let stalled = c.choose(3);
        let mut n = 0u64;
        for at in 0..=if stalled == 0 { all.len() } else { 400 } {
            let w = W::new();
            let mut s = Sim::new(&conf, w.clone());
            let mut m = Model::new(&conf);
            let what = || format!("{} after {at} bytes for {times} times {gap} ms", ["nothing comes", "the transport takes nothing", "flushing waits"][stalled]);
            if stalled == 0 {
                s.send(&all[..at]);
                s.settle()?;
                for _ in 0..times {
                    s.advance(gap)?;
                    ensure!(!s.ended(), "the connection ended ({:?}) without a shutdown: {}", s.result(), what());
                }
                s.send(&all[at..]);
            } else {
                let gate = Rc::new(RefCell::new(false));
                {
                    let mut p = s.peer.0.borrow_mut();
                    let (g, g2) = (gate.clone(), gate.clone());
                    let sent = Rc::new(RefCell::new(0));
                    let sent2 = sent.clone();
                    p.on_write = Some(Box::new(move |n| {
                        if *g.borrow() || stalled == 2 {
                            *sent.borrow_mut() += n;
                            return WriteAns::Take(n);
                        }
                        let t = n.min(at - *sent.borrow());
                        *sent.borrow_mut() += t;
                        if t > 0 { WriteAns::Take(t) } else { WriteAns::Block }
                    }));
                    if stalled == 2 {
                        p.on_flush = Some(Box::new(move || if *g2.borrow() || *sent2.borrow() < at { FlushAns::Ok } else { FlushAns::Block }));
                    }
                }
                s.send(&all);
                s.settle()?;
                for _ in 0..times {
                    s.advance(gap)?;
                    ensure!(!s.ended(), "the connection ended ({:?}) without a shutdown: {}", s.result(), what());
                }
                *gate.borrow_mut() = true;
                s.peer.unblock_write();
            }
            s.settle()?;
            for i in &ins {
                m.push(i.clone());
            }
            m.check(&s).map_err(|e| Violation(format!("{}: {}", what(), e.0)))?;
            m.check_calls(&w)?;
            n += 1;
            if stalled > 0 && at > s.peer.out().len() {
                break;
            }
        }
        sh.state(&(mpt, gap, times, stalled));
        sh.eval(n);
        Ok(())
    });
    r.go(cfg("floods", "a peer that always has another notification ready, n already answered: the connection ends at the next moment after the shutdown").bound(r.q(8, 16)), |c| {
        let sh = Sh::new(c);
        let conf = Conf::new();
        let n = c.choose(4);
        let by = c.flag();
        let w = W::new();
        let s = Sim::new(&conf, w.clone());
        let tok = s.tok.clone();
        w.get().answer = Box::new(move |k, _, m| {
            if k == n && by {
                // told while the notification is in hand
                tok.cancel();
            }
            Ans::Ok(echo(m))
        });
        let mut s = s;
        bias(sh);
        In::Hello(Hello::new()).feed(&s);
        let burst: Vec<In> = (0..40).map(|i| nt(false, 1, 1 + i as u64, tagged(i as u32, 1))).collect();
        if by {
            burst.iter().for_each(|i| i.feed(&s));
            s.settle()?;
            let calls = w.get().calls;
            ensure!(s.ended(), "the connection goes on after its shutdown");
            ensure!(calls == n + 1, "told to shut down during notification {}, the connection processed {calls}", n + 1);
            let (got, rest) = s.got()?;
            let acks = got.iter().filter(|f| matches!(f, Frame::AgentAck(_))).count();
            ensure!(acks == n + 1 && rest == 0, "{acks} of {} notifications are acknowledged", n + 1);
        } else {
            burst[..n].iter().for_each(|i| i.feed(&s));
            s.settle()?;
            ensure!(!s.ended(), "the connection ended by itself");
            burst[n..].iter().for_each(|i| i.feed(&s));
            s.tok.cancel();
            s.settle()?;
            ensure!(s.ended(), "the connection goes on after its shutdown");
            ensure!(w.get().calls == n, "told to shut down after notification {n}, the connection processed {}", w.get().calls);
        }
        sh.state(&(n, by));
        sh.eval(1);
        Ok(())
    });
}

/// A hello whose frame is exactly so large.
fn sized_hello(n: usize, mfs: u32) -> Hello {
    for p in n.saturating_sub(110)..n {
        let h = Hello { versions: vec![v(2, 0)], mfs, caps: vec![PIPE], hc: None, engine: Some("e".repeat(p)) };
        if In::Hello(h.clone()).bytes().len() == n + 4 {
            return h;
        }
    }
    // the length of the name's length changes just here
    let h = Hello { versions: vec![v(2, 0), v(1, 0)], mfs, caps: vec![PIPE], hc: None, engine: None };
    let k = In::Hello(h).bytes().len();
    panic!("no hello of {n} bytes (shortest {k})")
}

fn sizes(r: &mut Run) {
    let mut ns = vec![150usize, 300, 1000, 8192, 16383, 16384, 16385, 20000, 32768, 65535, 65536, 65537, 70000, 1 << 17, 300_000, 1 << 20];
    if r.thorough() {
        ns.extend([1 << 21, (1 << 22) + 1, (1 << 24) - 1, (1 << 24) + 5]);
    }
    r.go(cfg("sizes", "16 (thorough: 20) configured sizes up to 1 MiB (16 MiB): a hello of exactly that many bytes, one or two more, and less; then, agreed on that size, a smaller one or (announced larger) the configured one, a notification and a reply of exactly the agreed size, one less and one more"), |c| {
        let n = *c.of(&ns);
        let conf = Conf::new().mfs(n);
        let announced = *c.of(&[u32::MAX, n as u32, n as u32 + 1, n as u32 - 7, n as u32 / 2 + 1]);
        let agreed = n.min(announced as usize);
        let first = c.choose(5);
        let w = W::new();
        let mut m = Model::new(&conf);
        let second = if first < 3 { c.choose(6) } else { 6 };
        let mk = |pad: usize| vec![Action::SetVar { scope: Scope::Request, name: "v".into(), value: Typed::Binary(vec![b'x'; pad].into()) }];
        let len = |p: usize| wire::body(&Frame::AgentAck(AgentAck { fragmented: false, aborted: false, stream_id: 1, frame_id: 1, actions: mk(p) })).len();
        let reply = match second {
            3..=5 => {
                let want = agreed + second - 4;
                mk((want.saturating_sub(40)..want).find(|p| len(*p) == want).unwrap_or(1))
            }
            _ => vec![],
        };
        let r2 = reply.clone();
        w.get().answer = Box::new(move |_, _, _| Ans::Ok(reply.clone()));
        m.auto = Box::new(move |_, _| Some(Reply::Ok(r2.clone())));
        c.note(|| format!("configured {n}, announced {announced}, hello {first}, then {second}"));
        let mut s = Sim::new(&conf, w.clone());
        let go = |s: &mut Sim, m: &mut Model, i: In| -> Res {
            i.feed(s);
            m.push(i);
            s.settle()?;
            m.check(s)
        };
        let i = match first {
            0 => In::Hello(sized_hello(n, announced)),
            1 => In::Hello(sized_hello(n - 1, announced)),
            2 => In::Hello(Hello::new().mfs(announced)),
            k => In::TooLong((n + k - 2) as u32),
        };
        go(&mut s, &mut m, i)?;
        c.eval(1);
        c.state(&(n, announced, first, second));
        match second {
            0 | 1 => {
                go(&mut s, &mut m, sized_notify(agreed - second))?;
                go(&mut s, &mut m, nt(false, 1, 2, tagged(2, 1)))?;
            }
            2 => go(&mut s, &mut m, In::TooLong(agreed as u32 + 1))?,
            3..=5 => go(&mut s, &mut m, nt(false, 1, 1, tagged(2, 1)))?,
            _ => {}
        }
        Ok(())
    });
}

/// The processing time as it is configured, from the least to the greatest there is.
fn limits(r: &mut Run) {
    let day = Duration::from_secs(86400);
    let l = vec![Duration::ZERO, Duration::from_nanos(1), Duration::from_micros(999), Duration::from_millis(1), Duration::from_millis(2), Duration::from_millis(1500), Duration::from_secs(15), Duration::from_secs(60), Duration::from_secs(3601), day, day * 49, day * 51, day * 36500, Duration::from_secs(i64::MAX as u64), Duration::from_secs(u64::MAX), Duration::MAX];
    limits_of(r, "limits", "16 processing times from none to the greatest there is: the first or second notification, whole or in fragments, is answered never, just within the time or (where it is too long to wait) after 50 days", l);
}
fn limits_of(r: &mut Run, name: &'static str, what: &'static str, list: Vec<Duration>) {
    r.go(cfg(name, what), |c| {
        let mpt = *c.of(&list);
        let ends = c.flag();
        let before = c.choose(2);
        let frag = c.flag();
        c.note(|| format!("processing time {mpt:?}, {}, {before} notifications before", if ends { "never answered" } else { "answered in time" }));
        let w = W::new();
        w.get().answer = Box::new(move |n, _, _| if n < before { Ans::Ok(vec![]) } else { Ans::Later });
        let conf = Conf::new().caps(&ALL);
        let rt = Builder::new().capabilities(ALL).max_process_time(mpt).make_service(w.maker(), 42);
        let mut s = Sim::on(Clock::new(), rt, w.clone(), Default::default(), "");
        let mut m = Model::new(&conf);
        m.auto = Box::new(move |n, _| if n < before { Some(Reply::Ok(vec![])) } else { None });
        let mut ins = vec![In::Hello(Hello::new().caps(&ALL))];
        ins.extend((0..before).map(|i| nt(false, 1, 1 + i as u64, tagged(i as u32, 1))));
        if frag {
            ins.push(nt(true, 2, 2, tagged(8, 1)));
        }
        ins.push(nt(false, 2, 2, tagged(9, 1)));
        for i in ins {
            i.feed(&s);
            m.push(i);
            s.settle()?;
            if mpt > Duration::from_millis(1) {
                m.check(&s)?;
            }
        }
        let ms = mpt.as_millis();
        let far = ms > 50 * 86_400_000;
        if ms < 2 {
            // at any moment up to then
            s.advance(3)?;
            if before > 0 && s.got()?.0.len() == 2 {
                // no time at all for those before
                c.eval(1);
                return Ok(());
            }
            m.reply(Reply::Timeout);
        } else if far || !ends {
            s.advance(if far { 50 * 86_400_000 } else { ms as u64 - 1 })?;
            m.check(&s).map_err(|e| Violation(format!("in time: {}", e.0)))?;
            w.release(before, Ans::Ok(vec![]));
            m.reply(Reply::Ok(vec![]));
            s.settle()?;
        } else {
            s.advance(ms as u64 - 1)?;
            m.check(&s).map_err(|e| Violation(format!("1 ms before its end: {}", e.0)))?;
            m.reply(Reply::Timeout);
            s.advance(2)?;
        }
        m.check(&s)?;
        m.check_calls(&w)?;
        let (got, _) = s.got()?;
        c.state(&(mpt, ends, before, frag, kinds(&got)));
        c.eval(1);
        Ok(())
    });
}

pub fn c31(r: &mut Run) {
    sizes(r);
    limits(r);
    let depth = r.q(4usize, 5);
    r.go(cfg("builder", "every sequence of up to 4 (thorough: 5) builder calls of 16 kinds; the fields of the runtime and one connection's behaviour: hello reply, limit on frames, fragmentation, processing time"), |c| {
        let sh = Sh::new(c);
        let mut b = Builder::new();
        let mut vs: BTreeSet<(u8, u8)> = BTreeSet::new();
        let mut caps: BTreeSet<&'static str> = BTreeSet::new();
        let (mut mfs, mut mpt): (Option<usize>, Option<u64>) = (None, None);
        let mut names = vec![];
        for _ in 0..depth {
            let k = sh.choose(17);
            let name = ["end", "version 2.0", "version 1.0", "version 2.1", "fragmentation", "pipelining", "asynchronous", "capability fragmentation", "capability async", "capabilities [pipelining, async]", "capabilities []", "frame size 256", "frame size 1000", "frame size 70000", "time 10 ms", "time 20 s", "capability pipelining"][k];
            match k {
                0 => break,
                1..=3 => {
                    let x = [v(2, 0), v(1, 0), v(2, 1)][k - 1];
                    b = b.version(x);
                    vs.insert((x.major, x.minor));
                }
                4 => {
                    b = b.fragmentation();
                    caps.insert("fragmentation");
                }
                5 => {
                    b = b.pipelining();
                    caps.insert("pipelining");
                }
                6 => {
                    b = b.asynchronous();
                    caps.insert("async");
                }
                7 => {
                    b = b.capability(FRAG);
                    caps.insert("fragmentation");
                }
                8 => {
                    b = b.capability(ASYNC);
                    caps.insert("async");
                }
                9 => {
                    b = b.capabilities([PIPE, ASYNC]);
                    caps.extend(["pipelining", "async"]);
                }
                10 => b = b.capabilities([]),
                11..=13 => {
                    let n = [256, 1000, 70000][k - 11];
                    b = b.max_frame_size(n);
                    mfs = Some(n);
                }
                14 => {
                    b = b.max_process_time(Duration::from_millis(10));
                    mpt = Some(10);
                }
                15 => {
                    b = b.max_process_time(Duration::from_secs(20));
                    mpt = Some(20000);
                }
                _ => {
                    b = b.capability(PIPE);
                    caps.insert("pipelining");
                }
            }
            names.push(name);
        }
        sh.note(|| format!("{names:?}"));
        let w = W::new();
        let rt = b.make_service(w.maker(), 42);
        if vs.is_empty() {
            vs.insert((2, 0));
        }
        let (mfs, mpt) = (mfs.unwrap_or(16384), mpt.unwrap_or(15000));
        let gv: BTreeSet<(u8, u8)> = rt.supported_versions.iter().map(|v| (v.major, v.minor)).collect();
        let gc: BTreeSet<&str> = rt.capabilities.iter().map(wire::cap).collect();
        ensure!(gv == vs && rt.supported_versions.len() == vs.len(), "the runtime has versions {:?}, expected {vs:?}", rt.supported_versions);
        ensure!(gc == caps && rt.capabilities.len() == caps.len(), "the runtime has capabilities {:?}, expected {caps:?}", rt.capabilities);
        ensure!(rt.max_frame_size == mfs, "the runtime has frame size {}, expected {mfs}", rt.max_frame_size);
        ensure!(rt.max_process_time == Duration::from_millis(mpt), "the runtime has processing time {:?}, expected {mpt} ms", rt.max_process_time);
        sh.state(&(&vs, &caps, mfs, mpt));
        sh.eval(1);
        // a connection with these settings
        let conf = Conf { versions: vs.iter().map(|x| v(x.0, x.1)).collect(), caps: ALL.iter().filter(|x| caps.contains(wire::cap(x))).cloned().collect(), mfs, mpt };
        let probe = sh.choose(4);
        w.get().answer = Box::new(move |_, _, m| if probe == 2 { Ans::Never } else { let _ = m; Ans::Ok(vec![]) });
        let mut s = Sim::on(Clock::new(), rt, w.clone(), Default::default(), "");
        let mut m = Model::new(&conf);
        m.auto = Box::new(move |_, _| if probe == 2 { None } else { Some(Reply::Ok(vec![])) });
        let mut go = |s: &mut Sim, m: &mut Model, i: In| -> Res {
            sh.note(|| i.brief());
            i.feed(s);
            m.push(i);
            s.settle()?;
            m.check(s)
        };
        go(&mut s, &mut m, In::Hello(Hello { versions: vec![v(1, 0), v(2, 0), v(2, 1), v(3, 7)], mfs: 1 << 20, caps: ALL.to_vec(), hc: None, engine: None }))?;
        match probe {
            0 => {
                go(&mut s, &mut m, sized_notify(mfs))?;
                go(&mut s, &mut m, In::TooLong(mfs as u32 + 1))?;
            }
            1 => {
                go(&mut s, &mut m, nt(true, 1, 1, tagged(1, 1)))?;
                if !m.closed() {
                    go(&mut s, &mut m, nt(false, 1, 1, tagged(2, 1)))?;
                }
            }
            2 => {
                go(&mut s, &mut m, nt(false, 1, 1, tagged(1, 1)))?;
                s.advance(mpt - 1)?;
                m.check(&s)?;
                s.advance(2)?;
                m.reply(Reply::Timeout);
                m.check(&s)?;
            }
            _ => {
                ensure!(w.get().log.iter().all(|e| !matches!(e, Ev::Make { state, .. } if *state != 42)), "the service was made for another state");
                go(&mut s, &mut m, nt(false, 1, 1, tagged(1, 1)))?;
            }
        }
        m.check_calls(&w)?;
        Ok(())
    });
    r.go(cfg("values", "two capability lists of up to 4 (thorough: 5) of the 3 capabilities in every order with repetitions; up to 5 (thorough: 6) of 8 versions in every order; every pair of 12 sizes and of 12 times up to the greatest there are; the fields of the runtime"), |c| {
        let mut b = Builder::new();
        let mut vs: BTreeSet<(u8, u8)> = BTreeSet::new();
        let mut caps: BTreeSet<&'static str> = BTreeSet::new();
        let (mut mfs, mut mpt) = (16384usize, Duration::from_secs(15));
        let n = if c.thorough() { 5 } else { 4 };
        let mut what = vec![];
        match c.choose(4) {
            0 => {
                for _ in 0..2 {
                    let mut l = vec![];
                    for _ in 0..n {
                        let k = c.choose(4);
                        if k == 0 {
                            break;
                        }
                        l.push(ALL[k - 1].clone());
                    }
                    what.push(format!("{l:?}"));
                    caps.extend(l.iter().map(wire::cap));
                    b = b.capabilities(l);
                }
            }
            1 => {
                let far = [v(1, 9), v(1, 10), v(2, 0), v(2, 1), v(2, 10), v(255, 255), v(0, 0), v(10, 0)];
                for _ in 0..n + 1 {
                    let k = c.choose(9);
                    if k == 8 {
                        break;
                    }
                    what.push(format!("{}", far[k]));
                    vs.insert((far[k].major, far[k].minor));
                    b = b.version(far[k]);
                }
            }
            2 => {
                for _ in 0..2 {
                    mfs = *c.of(&[0usize, 1, 255, 256, 16383, 16384, 16385, 65536, (1 << 32) - 1, 1 << 32, (1 << 32) + 256, usize::MAX]);
                    b = b.max_frame_size(mfs);
                    what.push(format!("{mfs}"));
                }
            }
            _ => {
                let day = Duration::from_secs(86400);
                for _ in 0..2 {
                    mpt = *c.of(&[Duration::ZERO, Duration::from_nanos(1), Duration::from_micros(999), Duration::from_millis(1), Duration::from_millis(1500), Duration::from_secs(15), Duration::from_secs(60), Duration::from_secs(3601), day, day * 50, day * 36500, Duration::MAX]);
                    b = b.max_process_time(mpt);
                    what.push(format!("{mpt:?}"));
                }
            }
        }
        c.note(|| format!("{what:?}"));
        let rt = b.make_service(W::new().maker(), 42);
        if vs.is_empty() {
            vs.insert((2, 0));
        }
        let gv: BTreeSet<(u8, u8)> = rt.supported_versions.iter().map(|v| (v.major, v.minor)).collect();
        let gc: BTreeSet<&str> = rt.capabilities.iter().map(wire::cap).collect();
        ensure!(gv == vs && rt.supported_versions.len() == vs.len(), "{what:?} gave versions {:?}", rt.supported_versions);
        ensure!(gc == caps && rt.capabilities.len() == caps.len(), "{what:?} gave capabilities {:?}", rt.capabilities);
        ensure!(rt.max_frame_size == mfs, "{what:?} gave frame size {}", rt.max_frame_size);
        ensure!(rt.max_process_time == mpt, "{what:?} gave processing time {:?}", rt.max_process_time);
        c.state(&(&vs, &caps, mfs, mpt));
        c.eval(1);
        Ok(())
    });
}

// ---------------------------------------------------------------------------------------------
// C35: serving that is dropped and called again

/// What became of a script: the bytes sent, the calls, whether the connection has ended, and how
/// often serving waited.
struct Resumed {
    out: Vec<u8>,
    calls: Vec<Vec<Message>>,
    waits: usize,
}

fn resume(ins: &[In], cut: usize, slow: bool, mklater: bool, points: Vec<usize>, late: bool) -> Result<Resumed, Violation> {
    let conf = Conf::new().caps(&[FRAG]);
    let w = W::new();
    w.get().answer = Box::new(|n, _, m| if n % 2 == 0 { Ans::After(3, Box::new(Ans::Ok(echo(m)))) } else { Ans::Ok(echo(m)) });
    if mklater {
        w.get().make = Box::new(|_| Mk::Later);
    }
    let again = late.then(|| Rc::new(tokio::sync::Notify::new()));
    let (mut s, waits) = Sim::resuming(&conf, w.clone(), points, again.clone());
    if slow {
        let mut k = 0;
        s.peer.0.borrow_mut().on_write = Some(Box::new(move |n| {
            k += 1;
            if k % 2 == 0 {
                WriteAns::Take(n.min(7))
            } else {
                WriteAns::Wait
            }
        }));
    }
    let mut made = false;
    for i in ins {
        let b = i.bytes();
        for p in b.chunks(cut) {
            s.peer.send(p);
            s.settle()?;
        }
        if mklater && !made && w.get().makes == 1 {
            made = true;
            w.release_make(0);
            s.settle()?;
        }
        for _ in 0..4 {
            s.advance(1)?;
        }
    }
    if let Some(n) = again {
        n.notify_one();
        s.settle()?;
        n.notify_one();
        s.settle()?;
    }
    s.advance(10)?;
    s.peer.end(End::Eof);
    s.settle()?;
    s.advance(10)?;
    ensure!(s.ended(), "the connection goes on after its peer has gone");
    let calls = w.calls().into_iter().map(|c| c.1).collect();
    let out = s.peer.out();
    Ok(Resumed { out, calls, waits: waits.get() })
}

/// What was sent is what is sent without an interruption, or stops at some point of it, and may
/// then have a disconnect that tells of no error of the peer after whole frames.
fn follows(out: &[u8], whole: &[u8]) -> Res {
    if whole.starts_with(out) {
        return Ok(());
    }
    let (fs, rest) = frames_of(out)?;
    let (ws, _) = frames_of(whole)?;
    let same = fs.iter().zip(&ws).take_while(|(a, b)| a == b).count();
    let told = same + 1 == fs.len() && rest == 0 && matches!(fs.last(), Some(Frame::AgentDisconnect(d)) if [0, 1, 2, 13, 99].contains(&d.status_code));
    ensure!(told, "the peer received {:?} and {rest} bytes, without the interruption {:?}", kinds(&fs), kinds(&ws));
    Ok(())
}

pub fn c35(r: &mut Run) {
    again_after_end(r);
    let d = r.q(2usize, 3);
    let twice = r.thorough();
    r.go(cfg("points", "a hello and up to 2 (thorough: 3) of: a notification, a fragment, a final fragment, a disconnect; arriving whole, in pieces of 7 or byte by byte; written at once or 7 bytes at a time; the service made at once or later and answering at once or later; serving dropped at every point where it waits (every pair of points if in pieces or whole; thorough: always), and called again at once or after everything has come: what is sent and called is what is without that, or stops at some point of it, then with at most a disconnect"), |c| {
        let sh = Sh::new(c);
        let mut ins = vec![In::Hello(Hello { engine: None, ..Hello::new().caps(&[FRAG]) })];
        for i in 0..d {
            let k = sh.choose(5);
            ins.push(match k {
                0 => break,
                1 => nt(false, 1, 1 + i as u64, tagged(i as u32, 1)),
                2 => nt(true, 2, 2, tagged(i as u32, 1)),
                3 => nt(false, 2, 2, tagged(i as u32, 1)),
                _ => In::Disc(0, "bye".into()),
            });
        }
        let cut = *c.of(&[1usize, 7, 10_000]);
        let slow = c.flag();
        let mklater = c.flag();
        let whole = resume(&ins, cut, slow, mklater, vec![], false)?;
        let late = c.flag();
        let a = c.choose(whole.waits);
        let mut points = vec![a];
        if cut > 1 || twice {
            // the one after it, counted from there
            let b = c.choose(whole.waits - a);
            if b > 0 {
                points.push(a + b);
            }
        }
        sh.note(|| format!("{:?} in pieces of {cut}, slow writes {slow}, maker later {mklater}; serving dropped at {points:?} of {} waits, called again {}", ins.iter().map(|i| i.brief()).collect::<Vec<_>>(), whole.waits, if late { "at the end" } else { "at once" }));
        let x = resume(&ins, cut, slow, mklater, points.clone(), late)?;
        ensure!(whole.calls.starts_with(&x.calls), "the service was called with {:?}, without the interruption with {:?}", names(&x.calls), names(&whole.calls));
        follows(&x.out, &whole.out)?;
        sh.state(&(&points, x.out.len(), x.calls.len()));
        sh.eval(1);
        Ok(())
    });
}

/// A fault of the transport that passes.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Passing {
    No,
    Read(usize, io::ErrorKind),
    Write(usize, io::ErrorKind),
    Flush(usize, io::ErrorKind),
}

/// What a connection sends and calls whose serving is called so many times, whenever it ends.
fn served_again(ins: &[In], cut: usize, fault: Passing, times: usize, mk: u8) -> Result<(Vec<u8>, Vec<Vec<Message>>, [usize; 3]), Violation> {
    let conf = Conf::new().caps(&[FRAG]).mpt(1000);
    let w = W::new();
    w.get().answer = Box::new(|_, _, m| match m.first().map(|m| m.name.as_str()) {
        Some("fails") => Ans::Err("broken".into()),
        Some("late") => Ans::Never,
        _ => Ans::Ok(echo(m)),
    });
    w.get().make = Box::new(move |n| if mk == 1 || mk == 2 && n == 0 { Mk::Err("none".into()) } else { Mk::Ok });
    let mut s = Sim::owned(&conf, w.clone(), tokio_util::sync::CancellationToken::new(), |mut conn| async move {
        let mut r = Ok(());
        for _ in 0..times {
            r = conn.serve().await.map_err(|e| e.to_string());
            // more comes in
            for _ in 0..3 {
                tokio::task::yield_now().await;
            }
        }
        r
    });
    let polls = Rc::new(RefCell::new([0usize; 3]));
    {
        let mut p = s.peer.0.borrow_mut();
        let k = polls.clone();
        p.on_read = Some(Box::new(move |_, _| {
            let mut k = k.borrow_mut();
            k[0] += 1;
            match fault {
                Passing::Read(n, e) if n + 1 == k[0] => ReadAns::Fail(e),
                _ => ReadAns::Give(usize::MAX),
            }
        }));
        let k = polls.clone();
        p.on_write = Some(Box::new(move |n| {
            let mut k = k.borrow_mut();
            k[1] += 1;
            match fault {
                Passing::Write(n, e) if n + 1 == k[1] => WriteAns::Fail(e),
                _ => WriteAns::Take(n.min(if cut > 7 { 10_000 } else { 7 })),
            }
        }));
        let k = polls.clone();
        p.on_flush = Some(Box::new(move || {
            let mut k = k.borrow_mut();
            k[2] += 1;
            match fault {
                Passing::Flush(n, e) if n + 1 == k[2] => FlushAns::Fail(e),
                _ => FlushAns::Ok,
            }
        }));
    }
    for i in ins {
        for p in i.bytes().chunks(cut) {
            s.peer.send(p);
            if cut < 10_000 {
                s.settle()?;
            }
        }
        s.settle()?;
    }
    s.advance(1001)?;
    s.advance(10)?;
    s.peer.end(End::Eof);
    s.settle()?;
    s.advance(10)?;
    ensure!(s.ended(), "the connection goes on after its peer has gone");
    let calls = w.calls().into_iter().map(|c| c.1).collect();
    let out = s.peer.out();
    let k = *polls.borrow();
    Ok((out, calls, k))
}

fn again_after_end(r: &mut Run) {
    let d = r.q(2usize, 3);
    r.go(cfg("after the end", "a hello (good, of no version, a health check; its service made, not made, or not at first) and up to 2 (thorough: 3) of: a notification, a fragment, a final fragment, one that fails, one that takes too long, a disconnect, an undecodable frame, another hello; arriving whole, in pieces of 7 or byte by byte; no fault, or one that passes (3 kinds) at any one of the reads, writes or flushes; serving is called again 3 times as soon as it ends: nothing more is sent or called than without that, and nothing else"), |c| {
        let sh = Sh::new(c);
        let h = match sh.choose(5) {
            0 => Hello::new().caps(&[FRAG]),
            1 => Hello::new().caps(&[FRAG]).hc(Some(true)),
            2 => Hello { versions: vec![v(9, 9)], ..Hello::new() },
            _ => Hello::new(),
        };
        let mk = if h.hc.is_none() && h.versions != [v(9, 9)] { sh.choose(3) as u8 } else { 0 };
        let mut ins = vec![In::Hello(h)];
        for i in 0..d {
            let one = |n: &str| vec![crate::p_codec::msg(n, &[])];
            let k = sh.choose(9);
            ins.push(match k {
                0 => break,
                1 => nt(false, 1, 1 + i as u64, tagged(i as u32, 1)),
                2 => nt(true, 2, 2, tagged(i as u32, 1)),
                3 => nt(false, 2, 2, tagged(i as u32, 1)),
                4 => nt(false, 3, 3, one("fails")),
                5 => nt(false, 3, 3, one("late")),
                6 => In::Disc(0, "bye".into()),
                7 => In::Bad(vec![77], &[4]),
                _ => In::Hello(Hello::new()),
            });
        }
        // what may be taken for the start of a new connection
        ins.push(In::Hello(Hello::new()));
        ins.push(nt(false, 5, 5, tagged(50, 1)));
        let cut = *c.of(&[1usize, 7, 10_000]);
        let (out, calls, polls) = served_again(&ins, cut, Passing::No, 1, mk)?;
        let kinds_ = [io::ErrorKind::Interrupted, io::ErrorKind::TimedOut, io::ErrorKind::Other];
        let fault = match sh.choose(4) {
            0 => Passing::No,
            1 => Passing::Read(c.choose(polls[0].max(1)), *c.of(&kinds_)),
            2 => Passing::Write(c.choose(polls[1].max(1)), *c.of(&kinds_)),
            _ => Passing::Flush(c.choose(polls[2].max(1)), *c.of(&kinds_)),
        };
        sh.note(|| format!("{:?} in pieces of {cut}, maker {mk}, {fault:?}", ins.iter().map(|i| i.brief()).collect::<Vec<_>>()));
        let x = served_again(&ins, cut, fault, 4, mk)?;
        ensure!(calls.starts_with(&x.1), "the service was called with {:?}, without the interruption with {:?}", names(&x.1), names(&calls));
        follows(&x.0, &out)?;
        if fault == Passing::No {
            ensure!(x.0 == out && x.1 == calls, "serving again after the end changes what was sent or called");
        }
        sh.state(&(x.0.len(), x.1.len()));
        sh.eval(1);
        Ok(())
    });
}

// ---------------------------------------------------------------------------------------------
// C36: a disconnect of the application's own

pub fn c36(r: &mut Run) {
    late(r, vec![Late::Bye]);
    let statuses = [Error::Normal, Error::Io, Error::Timeout, Error::TooBig, Error::Invalid, Error::NoVersion, Error::NoFrameSize, Error::NoCapabilities, Error::BadVersion, Error::BadFrameSize, Error::FragmentNotSupported, Error::InterlacedFrames, Error::FrameIdNotFound, Error::ResourceAllocErr, Error::Unknown];
    r.go(cfg("goodbyes", "a connection that has not been served, was asked to stop before or after the handshake or a reply, is served no longer (dropped while idle before or after the handshake or a reply), or has ended by itself (peer gone, protocol error, health check); configured sizes 300 and 16384, announced 280 and 16380; then one or two disconnects of every status with every text of the list and with every size within 3 of the agreed size and of the other sizes; written at once or in pieces: exactly those frames follow what was sent, and none that is larger than agreed"), |c| {
        let sh = Sh::new(c);
        let (a, p) = *c.of(&[(300usize, 280u32), (300, 16380), (16384, 280), (16384, 16380)]);
        let conf = Conf::new().mfs(a);
        let how = c.choose(9);
        let slow = c.flag();
        let hello = In::Hello(Hello::new().mfs(p));
        let note = nt(false, 1, 1, tagged(1, 1));
        let ins: Vec<In> = match how {
            0 | 1 => vec![],
            2 | 4 => vec![hello],
            3 | 5 => vec![hello, note],
            6 => vec![hello, note, In::Eof(vec![])],
            7 => vec![hello, nt(true, 1, 1, vec![])],
            _ => vec![In::Hello(Hello::new().mfs(p).hc(Some(true)))],
        };
        // whether the sizes have been agreed
        let agreed = if ins.is_empty() { a } else { a.min(p as usize) };
        let kind = c.choose(4);
        let head = wire::body(&Frame::agent_disconnect(Error::Normal, "")).len();
        let texts: Vec<(Error, String)> = match kind {
            0 => statuses.iter().map(|s| (*s, "bye".to_string())).collect(),
            1 => odd_texts().into_iter().map(|t| (Error::Unknown, t)).collect(),
            3 => (0..310usize).map(|n| (statuses[n % statuses.len()], ["x", "\u{e9}"][n / 3 % 2].repeat(n / (1 + n / 3 % 2)))).collect(),
            _ => {
                let mut v = vec![];
                for n in [280usize, 300, 16380, 16384] {
                    for d in 0..7 {
                        let n = n + d - 3;
                        // the length of the text is written in one byte or two
                        v.extend((n - head - 3..n - head + 1).map(|l| "x".repeat(l)).find(|t| wire::body(&Frame::agent_disconnect(Error::Timeout, t.clone())).len() == n).map(|t| (Error::Timeout, t)));
                    }
                }
                v
            }
        };
        let twice = c.flag();
        for (status, text) in texts {
            let mut say = vec![(status, text.clone())];
            if twice {
                say.insert(0, (Error::ResourceAllocErr, "first".to_string()));
            }
            let w = W::new();
            let stop = Rc::new(tokio::sync::Notify::new());
            let go = Rc::new(tokio::sync::Notify::new());
            let results = Rc::new(RefCell::new(vec![]));
            let (stop2, go2, results2, say2) = (stop.clone(), go.clone(), results.clone(), say.clone());
            let tok = tokio_util::sync::CancellationToken::new();
            let mut s = Sim::owned(&conf, w, tok.clone(), move |mut conn| async move {
                if how != 0 {
                    tokio::select! {
                        biased;
                        _ = conn.serve() => {}
                        _ = stop2.notified() => {}
                    }
                }
                go2.notified().await;
                for (status, text) in say2 {
                    let r = conn.disconnect(status, text).await;
                    results2.borrow_mut().push(r.map_err(|e| e.to_string()));
                }
                Ok(())
            });
            if slow {
                let mut k = 0;
                s.peer.0.borrow_mut().on_write = Some(Box::new(move |n| {
                    k += 1;
                    if k % 2 == 0 { WriteAns::Take(n.min(7)) } else { WriteAns::Wait }
                }));
            }
            s.settle()?;
            for i in &ins {
                i.feed(&s);
                s.settle()?;
            }
            match how {
                1 | 4 | 5 => stop.notify_one(),
                2 | 3 => tok.cancel(),
                _ => {}
            }
            s.settle()?;
            let before = s.peer.out();
            go.notify_one();
            s.settle()?;
            s.advance(1)?;
            let tell = |e: String| format!("{e} (case {how}, configured {a}, announced {p}, {:?})", say.iter().map(|(s, t)| (*s as u32, t.chars().take(40).collect::<String>(), t.len())).collect::<Vec<_>>());
            ensure!(s.ended(), "{}", tell("a disconnect is still being written".into()));
            let out = s.peer.out();
            ensure!(out.starts_with(&before), "{}", tell("what was sent has changed".into()));
            let mut want = before.clone();
            let mut oks = vec![];
            let mut left_open = false;
            for (status, text) in &say {
                let f = Frame::agent_disconnect(*status, text.clone());
                let fits = wire::body(&f).len() <= agreed;
                oks.push(fits);
                if fits {
                    want.extend(wire::wire(&f));
                } else {
                    left_open = true;
                }
            }
            if left_open {
                // nothing, or that it was too big
                ensure!(out.starts_with(&want), "{}", tell(format!("the peer received {:?}", kinds(&frames_of(&out)?.0))));
                let (fs, rest) = frames_of(&out[want.len()..])?;
                ensure!(rest == 0 && fs.len() <= 1 && fs.iter().all(|f| matches!(f, Frame::AgentDisconnect(d) if d.status_code == 3) && wire::body(f).len() <= agreed), "{}", tell(format!("the peer received {:?} for a disconnect that does not fit", kinds(&fs))));
            } else {
                ensure!(out == want, "{}", tell(format!("the peer received {:?}", kinds(&frames_of(&out)?.0))));
            }
            let got: Vec<bool> = results.borrow().iter().map(|r| r.is_ok()).collect();
            ensure!(got == oks, "{}", tell(format!("sending it gave {:?}", results.borrow())));
            sh.state(&(how, a, p, status as u32, text.len(), out.len()));
            sh.eval(1);
        }
        Ok(())
    });
    let depth = r.q3(4usize, 6, 7);
    r.go(cfg("histories", "every sequence of up to 6 (thorough: 7) of: a hello (announcing more or less), a notification answered at once or not, one that fails, a disconnect, an undecodable frame, the end of the stream, serving, its drop, a shutdown request, and disconnects of the owner's that are small, of exactly the size in force, or one byte larger: each reaches the peer whole behind what was sent before, or fails with nothing too large sent"), |c| {
        let sh = Sh::new(c);
        let (a, p) = *c.of(&[(300usize, 280u32), (300, 16380)]);
        let conf = Conf::new().mfs(a);
        let w = W::new();
        w.get().answer = Box::new(|_, _, m| match m[0].name.as_str() {
            "later" => Ans::Later,
            "fail" => Ans::Err("it failed".into()),
            _ => Ans::Ok(echo(m)),
        });
        enum Do {
            Serve,
            Bye(Error, String),
            End,
        }
        let todo: Rc<RefCell<std::collections::VecDeque<Do>>> = Default::default();
        let (go, stop) = (Rc::new(tokio::sync::Notify::new()), Rc::new(tokio::sync::Notify::new()));
        let serving = Rc::new(std::cell::Cell::new(false));
        let said: Rc<RefCell<Vec<bool>>> = Default::default();
        let (todo2, go2, stop2, serving2, said2) = (todo.clone(), go.clone(), stop.clone(), serving.clone(), said.clone());
        let tok = tokio_util::sync::CancellationToken::new();
        let mut s = Sim::owned(&conf, w.clone(), tok.clone(), move |mut conn| async move {
            loop {
                let next = todo2.borrow_mut().pop_front();
                match next {
                    None => go2.notified().await,
                    Some(Do::Serve) => {
                        serving2.set(true);
                        tokio::select! {
                            biased;
                            _ = conn.serve() => {}
                            _ = stop2.notified() => {}
                        }
                        serving2.set(false);
                    }
                    Some(Do::Bye(status, text)) => {
                        let r = conn.disconnect(status, text).await;
                        said2.borrow_mut().push(r.is_ok());
                    }
                    Some(Do::End) => return Ok(()),
                }
            }
        });
        let mut hist = String::new();
        let mut over = false;
        let mut fid = 0;
        for _ in 0..depth {
            let mut can = vec![""];
            if !over {
                can.extend(["hello", "note", "later", "fail", "bye", "bad", "eof"]);
            }
            if !s.tok.is_cancelled() {
                can.push("shutdown");
            }
            can.extend(if serving.get() { vec!["stop"] } else { vec!["serve", "say", "say-exactly", "say-too-much"] });
            let what = *sh.of(&can);
            hist += what;
            hist.push(' ');
            let before = s.peer.out();
            match what {
                "" => break,
                "hello" => In::Hello(Hello::new().mfs(p)).feed(&s),
                "note" | "later" | "fail" => {
                    fid += 1;
                    let m = crate::p_codec::msg(what, &[]);
                    nt(false, 1, fid, vec![m]).feed(&s)
                }
                "bye" => In::Disc(0, "bye".into()).feed(&s),
                "bad" => In::Bad(vec![0xff; 9], &[]).feed(&s),
                "eof" => {
                    In::Eof(vec![]).feed(&s);
                    over = true;
                }
                "shutdown" => tok.cancel(),
                "stop" => {
                    stop.notify_one();
                    s.settle()?;
                    ensure!(!serving.get(), "serving that is dropped goes on");
                }
                "serve" => {
                    todo.borrow_mut().push_back(Do::Serve);
                    go.notify_one();
                }
                _ => {
                    // in force is what a hello of the agent's has said
                    let (fs, rest) = frames_of(&before)?;
                    ensure!(rest == 0, "half a frame was sent ({hist})");
                    let agreed = if fs.iter().any(|f| matches!(f, Frame::AgentHello(_))) { a.min(p as usize) } else { a };
                    let head = wire::body(&Frame::agent_disconnect(Error::Normal, "")).len();
                    let size = agreed + (what == "say-too-much") as usize;
                    let text = if what == "say" { "bye".to_string() } else { (size - head - 3..size - head + 1).map(|l| "x".repeat(l)).find(|t| wire::body(&Frame::agent_disconnect(Error::Timeout, t.clone())).len() == size).unwrap() };
                    todo.borrow_mut().push_back(Do::Bye(Error::Timeout, text.clone()));
                    go.notify_one();
                    s.settle()?;
                    let f = Frame::agent_disconnect(Error::Timeout, text);
                    let out = s.peer.out();
                    ensure!(out.starts_with(&before), "what was sent has changed ({hist})");
                    let (fs, rest) = frames_of(&out[before.len()..])?;
                    let ok = said.borrow_mut().pop();
                    if what == "say-too-much" {
                        ensure!(rest == 0 && fs.len() <= 1 && fs.iter().all(|f| matches!(f, Frame::AgentDisconnect(d) if d.status_code == 3) && wire::body(f).len() <= agreed), "the peer received {:?} and {rest} bytes for a disconnect that does not fit ({hist})", kinds(&fs));
                        ensure!(ok == Some(false), "sending a disconnect that does not fit gave {ok:?} ({hist})");
                    } else {
                        ensure!(out[before.len()..] == wire::wire(&f), "the peer received {:?} and {rest} bytes for a disconnect of {} bytes, {agreed} are agreed ({hist})", kinds(&fs), wire::body(&f).len());
                        ensure!(ok == Some(true), "sending a disconnect gave {ok:?} ({hist})");
                    }
                }
            }
            s.settle()?;
        }
        let (fs, rest) = frames_of(&s.peer.out())?;
        ensure!(rest == 0, "half a frame was sent ({hist})");
        sh.note(|| hist.clone());
        todo.borrow_mut().push_back(Do::End);
        stop.notify_one();
        go.notify_one();
        s.settle()?;
        sh.state(&(kinds(&fs), serving.get(), s.tok.is_cancelled()));
        sh.eval(1);
        Ok(())
    });
}

#[allow(dead_code)]
fn _unused(_: &Capability, _: End) {}
