//! C32, C33: nothing is kept of what is over; tracing changes nothing.
use crate::alloc::live;
use crate::conn::*;
use crate::drv::Sh;
use crate::engine::*;
use crate::io::{FlushAns, WriteAns};
use crate::p_codec::msg;
use crate::run::Run;
use crate::svc::{echo, Ans, Mk, Rd, Who, W};
use crate::{ensure, fail};
use haproxy_spoa::runtime::{Acker, Dispatcher};
use haproxy_spop::{Action, AgentAck, AgentHello, AsyncHandler, Error, Frame, HaproxyNotify, Message, Reassembly, Scope, Typed, Version};
use std::panic::{catch_unwind, AssertUnwindSafe};
use tokio::sync::mpsc::{unbounded_channel, UnboundedReceiver};
use tokio_util::sync::CancellationToken;

/// What brings a connection to its end.
#[derive(Clone, Debug)]
enum Over {
    /// the peer does this
    By(In),
    /// the same instead of a hello
    Early(In),
    /// a last notification with this message, answered as its name says; so many ms later
    Call(&'static str, u64),
    /// a last notification fails with this text
    Text(String),
    /// a last notification of these messages, then the peer's disconnect
    Messages(Vec<Message>),
    /// making the service ends like this
    Make(Mk),
    /// the maker (0) or the service (1) says it cannot be used
    Unready(usize),
    /// the agent is told to shut down
    Shut,
    /// the same while a notification is in hand that is then answered
    ShutBusy,
    /// writing (0) or flushing (1) fails
    Write(usize),
    /// the task is dropped while it waits for input (0), the answer (1), the service to be made (2),
    /// the transport (3)
    Drop(usize),
}

fn overs() -> Vec<Over> {
    use Over::*;
    let ack = || In::Other(Frame::AgentAck(AgentAck { fragmented: false, aborted: false, stream_id: 1, frame_id: 1, actions: vec![] }));
    let whole = nt(false, 9, 9, vec![msg("ok", &[])]).bytes();
    let mut v = vec![
        By(In::Disc(0, "bye".into())),
        By(In::Disc(99, "trouble".into())),
        By(In::Hello(Hello::new())),
        By(ack()),
        By(In::Other(Frame::AgentHello(AgentHello { version: Version::V2_0, max_frame_size: 16380, capabilities: vec![] }))),
        By(In::Bad(vec![0xff; 40], &[4])),
        By(In::Bad(vec![], &[4])),
        By(In::TooLong(16385)),
        By(In::TooLong(u32::MAX)),
        By(In::Eof(vec![])),
        By(In::Eof(whole[..2].to_vec())),
        By(In::Eof(whole[..whole.len() - 1].to_vec())),
        By(In::Fail),
        Early(In::Hello(Hello::new().hc(Some(true)))),
        Early(In::Hello(Hello { versions: vec![Version { major: 9, minor: 9 }], ..Hello::new() })),
        Early(nt(false, 1, 1, vec![msg("ok", &[])])),
        Early(In::Disc(0, "bye".into())),
        Early(ack()),
        Early(In::Bad(vec![0xff; 40], &[4])),
        Early(In::TooLong(u32::MAX)),
        Early(In::Eof(vec![])),
        Early(In::Eof(vec![0, 0, 0, 20, 1])),
        Early(In::Fail),
    ];
    let texts = crate::svc::odd_texts();
    for (k, t) in texts.iter().enumerate() {
        v.push(By(In::Disc([0, 99, 4][k % 3], t.clone())));
        v.push(Text(t.clone()));
        v.push(Make(if k % 2 == 0 { Mk::Err(t.clone()) } else { Mk::LaterErr(t.clone()) }));
        v.push(Early(In::Disc([0, 99, 4][k % 3], t.clone())));
    }
    for m in crate::svc::odd_messages() {
        v.push(Messages(m.clone()));
        v.push(Early(nt(false, 1, 1, m)));
    }
    v.extend(crate::p_conn::bad_frames().into_iter().map(|(b, s)| By(In::Bad(b, s))));
    v.extend(crate::p_conn::early_frames().into_iter().map(Early));
    v.extend(["err", "panic-call", "panic-poll", "big"].map(|n| Call(n, 0)));
    v.push(Call("never", 1001));
    v.extend([Mk::Err("no service".into()), Mk::LaterErr("no service".into()), Mk::Panic].map(Make));
    v.extend([Unready(0), Unready(1), Shut, ShutBusy, Write(0), Write(1)]);
    v.extend((0..4).map(Drop));
    v
}

fn depth_one(o: &Over) -> bool {
    match o {
        Over::Text(_) | Over::Messages(_) | Over::By(In::Bad(..)) => true,
        Over::By(In::Disc(_, t)) => t != "bye",
        _ => false,
    }
}

pub fn script(w: &W) {
    script_with(w, String::new())
}
fn script_with(w: &W, text: String) {
    w.get().answer = Box::new(move |_, _, m| match m.first().map(|m| m.name.as_str()) {
        Some("err") => Ans::Err("broken".into()),
        Some("text") => Ans::Err(text.clone()),
        Some("panic-call") => Ans::PanicCall,
        Some("panic-poll") => Ans::PanicPoll,
        Some("never") => Ans::Never,
        Some("later") => Ans::Later,
        Some("big") => Ans::Ok(vec![Action::SetVar { scope: Scope::Request, name: "big".into(), value: Typed::Binary(vec![7u8; 20000].into()) }]),
        _ => Ans::Ok(echo(m)),
    });
}

/// One whole life of a connection.
#[allow(clippy::too_many_arguments)]
fn life(clock: &std::rc::Rc<Clock>, rt: &Rt, w: &W, root: &CancellationToken, before: &[usize], over: &Over, how: Deliver, n: u64) -> Res {
    life_seen(clock, rt, w, root, before, over, how, n, &mut None)
}
#[allow(clippy::too_many_arguments)]
fn life_seen(clock: &std::rc::Rc<Clock>, rt: &Rt, w: &W, root: &CancellationToken, before: &[usize], over: &Over, how: Deliver, n: u64, seen: &mut Option<String>) -> Res {
    let mut s = Sim::on(clock.clone(), rt.clone(), w.clone(), root.child_token(), "");
    let peer = s.peer.clone();
    let tok = s.tok.clone();
    let calls0 = w.get().calls;
    let makes0 = w.get().makes;
    let mut panics = false;
    let mut go = |s: &mut Sim| -> Res {
        match catch_unwind(AssertUnwindSafe(|| s.settle())) {
            Ok(r) => r,
            Err(_) => {
                panics = true;
                s.abandon();
                Ok(())
            }
        }
    };
    if how == Deliver::Drip {
        drip(&peer);
    }
    let lock = how == Deliver::Lockstep;
    let mut fid = n * 16;
    // nothing that names a connection is the same twice
    let own = |h: Hello| Hello { engine: Some(format!("engine-{n}")), ..h };
    let named = |name: &str| vec![msg(name, &[("k", Typed::String(format!("value {n}"))), (&format!("k{n}"), Typed::Uint64(n))]), msg(&format!("message {n}"), &[])];
    if let Over::Early(i) = over {
        match i {
            In::Hello(h) => In::Hello(own(h.clone())).feed(&s),
            In::Disc(c, t) if t == "bye" => In::Disc(*c, format!("bye {n}")).feed(&s),
            i => i.feed(&s),
        }
        go(&mut s)?;
    } else {
        match over {
            Over::Write(0) if before.is_empty() => peer.0.borrow_mut().on_write = Some(Box::new(|_| WriteAns::Fail(std::io::ErrorKind::BrokenPipe))),
            Over::Write(1) if before.is_empty() => peer.0.borrow_mut().on_flush = Some(Box::new(|| FlushAns::Fail(std::io::ErrorKind::BrokenPipe))),
            Over::Drop(3) if before.is_empty() => peer.0.borrow_mut().on_write = Some(Box::new(|k| if k > 9 { WriteAns::Take(9) } else { WriteAns::Block })),
            _ => {}
        }
        In::Hello(own(Hello::new().mfs(16380 - (n % 1000) as u32).caps(&ALL))).feed(&s);
        if lock {
            go(&mut s)?;
        }
        for (i, b) in before.iter().enumerate() {
            fid += 1;
            if i + 1 == before.len() {
                match over {
                    Over::Write(_) | Over::Drop(3) if !lock => go(&mut s)?,
                    _ => {}
                }
                match over {
                    Over::Write(0) => peer.0.borrow_mut().on_write = Some(Box::new(|_| WriteAns::Fail(std::io::ErrorKind::BrokenPipe))),
                    Over::Write(1) => peer.0.borrow_mut().on_flush = Some(Box::new(|| FlushAns::Fail(std::io::ErrorKind::BrokenPipe))),
                    Over::Drop(3) => peer.0.borrow_mut().on_write = Some(Box::new(|k| if k > 9 { WriteAns::Take(9) } else { WriteAns::Block })),
                    _ => {}
                }
            }
            match b {
                0 => nt(true, 1, fid, named("fragment")).feed(&s),
                1 => nt(false, 1, fid, named("whole")).feed(&s),
                _ => {
                    nt(true, 2, fid, named("part")).feed(&s);
                    nt(false, 2, fid, named("rest")).feed(&s);
                }
            }
            if lock {
                go(&mut s)?;
            }
        }
        fid += 1;
        match over {
            Over::By(i) => {
                match i {
                    In::Disc(c, t) if t == "bye" => In::Disc(*c, format!("bye {n}")).feed(&s),
                    i => i.feed(&s),
                }
                go(&mut s)?;
            }
            Over::Call(name, ms) => {
                nt(false, 3, fid, named(name)).feed(&s);
                go(&mut s)?;
                if *ms > 0 {
                    s.advance(*ms)?;
                }
            }
            Over::Text(_) => {
                nt(false, 3, fid, named("text")).feed(&s);
                go(&mut s)?;
            }
            Over::Messages(m) => {
                nt(true, 3, fid, m.clone()).feed(&s);
                nt(false, 4, fid, m.clone()).feed(&s);
                In::Disc(0, "bye".into()).feed(&s);
                go(&mut s)?;
            }
            Over::Make(Mk::LaterErr(_)) => {
                go(&mut s)?;
                w.release_make(makes0);
                go(&mut s)?;
            }
            Over::Unready(1) | Over::Make(_) | Over::Unready(_) => {
                nt(false, 3, fid, named("whole")).feed(&s);
                go(&mut s)?;
            }
            Over::Shut => {
                if how != Deliver::Burst {
                    go(&mut s)?;
                }
                tok.cancel();
                go(&mut s)?;
            }
            Over::ShutBusy => {
                nt(false, 3, fid, named("later")).feed(&s);
                go(&mut s)?;
                tok.cancel();
                go(&mut s)?;
                let n = w.get().calls;
                ensure!(n > calls0, "the notification was not taken up");
                w.release(n - 1, Ans::Ok(vec![]));
                go(&mut s)?;
            }
            Over::Write(_) => {
                nt(false, 3, fid, named("whole")).feed(&s);
                go(&mut s)?;
            }
            Over::Drop(k) => {
                if *k == 1 {
                    nt(false, 3, fid, named("never")).feed(&s);
                }
                if *k == 3 {
                    nt(false, 3, fid, named("whole")).feed(&s);
                }
                go(&mut s)?;
                ensure!(!s.ended(), "the connection has ended by itself: {:?}", s.result());
                s.abandon();
            }
            Over::Early(_) => {}
        }
    }
    *seen = Some(format!("{:?} {:?} {panics}", s.result(), kinds(&s.got()?.0)));
    ensure!(s.ended(), "the connection goes on");
    ensure!(peer.0.borrow().dropped, "the transport is kept open");
    let (made, gone) = w.services();
    ensure!(made == gone, "of {made} services {gone} were dropped");
    ensure!(w.get().in_hand == 0, "a call is still in hand");
    let mut tasks = 0;
    for _ in 0..20 {
        tasks = clock.rt.metrics().num_alive_tasks();
        if tasks == 0 {
            break;
        }
        clock.rt.block_on(tokio::task::yield_now());
    }
    ensure!(tasks == 0, "{tasks} tasks of it go on");
    Ok(())
}

/// Bytes that more repetitions may cost.
const SLACK: isize = 512;

pub fn c32(r: &mut Run) {
    let depth = r.q(3usize, 4);
    let (warm, reps) = (16u64, r.q(112u64, 512));
    r.go(cfg("connections", "connections of one runtime that get into each of 250 ends (peer's disconnects with 33 texts, errors of all kinds, leaving; failed handshakes, health checks; service and maker failures with the same texts, 19 odd message lists, panics, time running out; shutdown idle and busy; failing writes; task dropped at each kind of wait) after every sequence of up to 3 (thorough: 4) of: an open fragment, a notification, a fragmented one; input in three ways; each history 112 (thorough: 512) times: transport, service, calls and tasks are gone at the end of each and the memory held does not grow"), |c| {
        let os = overs();
        let over = os[c.choose(os.len())].clone();
        let how = [Deliver::Lockstep, Deliver::Burst, Deliver::Drip][c.choose(3)];
        let mut before = vec![];
        if !matches!(over, Over::Early(_) | Over::Make(_) | Over::Unready(0) | Over::Drop(2)) {
            // the texts and contents need no more history
            let depth = if depth_one(&over) { 1 } else { depth };
            for _ in 0..depth {
                match c.choose(4) {
                    0 => break,
                    k => before.push(k - 1),
                }
            }
        }
        // the transport blocks the answer to the last one
        if matches!(over, Over::Drop(3) | Over::Write(_)) && before.last() == Some(&0) {
            return Ok(());
        }
        c.note(|| format!("{over:?} after {before:?}, delivered {how:?}"));
        let conf = Conf::new().caps(&ALL).mpt(1000);
        let w = W::new();
        script_with(&w, if let Over::Text(t) = &over { t.clone() } else { String::new() });
        let o = over.clone();
        w.get().make = Box::new(move |_| match &o {
            Over::Make(m) => m.clone(),
            Over::Drop(2) => Mk::Later,
            _ => Mk::Ok,
        });
        let o = over.clone();
        let nb = before.iter().filter(|b| **b != 0).count();
        w.get().ready = Box::new(move |who, n| match (&o, who) {
            (Over::Unready(0), Who::Maker) => Rd::Err("not today".into()),
            (Over::Unready(1), Who::Svc(_)) if n >= nb => Rd::Err("not any more".into()),
            _ => Rd::Ready,
        });
        let clock = Clock::new();
        let rt = conf.runtime(&w);
        let root = CancellationToken::new();
        let mut at = 0;
        for n in 0..reps {
            if n == warm {
                at = live();
            }
            life(&clock, &rt, &w, &root, &before, &over, how, n)?;
            w.forget();
        }
        let more = live() - at;
        ensure!(more <= SLACK, "{} further connections with the same history leave {more} bytes behind", reps - warm);
        c.eval(reps);
        c.state(&(format!("{over:?}"), before, how));
        Ok(())
    });
    tables(r);
    crate::p_agent::c32(r);
}

fn m_of(i: u64) -> Message {
    msg("m", &[("a", Typed::Uint64(i))])
}

/// The reassembly table and the dispatcher.
fn tables(r: &mut Run) {
    let reps = r.q(1500u64, 20000);
    let warm = 1500u64;
    let slack = 12_000isize;
    let (n, ks) = r.q((4usize, 2usize), (5, 3));
    r.go(cfg("reassembly", "every sequence of up to 4 (thorough: 5) fragments and final ones with 0 to 2 items for 2 (thorough: 3) notifications, then a final one for each that is open; 3000 (thorough: 21500) times with fresh ids each, driven in three ways: the memory held afterwards does not grow"), |c| {
        let kind = c.choose(3);
        let mut ops = vec![];
        let mut open = vec![false; ks];
        for _ in 0..n {
            match c.choose(1 + ks * 4) {
                0 => break,
                k => {
                    let (key, x) = ((k - 1) / 4, (k - 1) % 4);
                    let frag = x < 2;
                    open[key] = frag;
                    ops.push((key, frag, [0, 2, 0, 1][x]));
                }
            }
        }
        for (k, o) in open.iter().enumerate() {
            if *o {
                ops.push((k, false, 1));
            }
        }
        if ops.is_empty() {
            return Ok(());
        }
        c.note(|| format!("way {kind}: {ops:?}"));
        let raw = Reassembly::<u64>::default();
        let mut msgs = Reassembly::<Message>::default();
        let mut acts = Reassembly::<Action>::default();
        let mut at = 0;
        for i in 0..warm + reps {
            if i == warm {
                at = live();
            }
            for (k, frag, n) in &ops {
                let (sid, fid) = (i, *k as u64 + 1);
                match kind {
                    0 => {
                        raw.reassemble(*frag, sid, fid, vec![i; *n]).map_err(|e| Violation(format!("{e:?}")))?;
                    }
                    1 => {
                        let f = crate::p_codec::notify(*frag, sid, fid, (0..*n).map(|_| m_of(i)).collect());
                        crate::drv::block(msgs.handle_frame(f)).map_err(|e| Violation(format!("{e:?}")))?.map_err(|e: Error| Violation(format!("{e:?}")))?;
                    }
                    _ => {
                        let f = crate::p_codec::ack(*frag, false, sid, fid, (0..*n).map(|_| Action::UnsetVar { scope: Scope::Request, name: "v".into() }).collect());
                        crate::drv::block(acts.handle_frame(f)).map_err(|e| Violation(format!("{e:?}")))?.map_err(|e: Error| Violation(format!("{e:?}")))?;
                    }
                }
            }
        }
        let more = live() - at;
        ensure!(more <= slack, "{reps} further rounds that left nothing open hold {more} bytes");
        c.eval(warm + reps);
        c.state(&(kind, ops));
        Ok(())
    });
    r.go(cfg("dispatcher", "every sequence of up to 3 (thorough: 4) fragments and final ones with 0 to 2 messages for 2 notifications, then a final one for each that is open; the consumer takes everything, leaves at once or never looks before it leaves; the job completed, aborted or dropped, its handle polled or dropped, or nobody processes jobs any more; 3000 (thorough: 21500) times with fresh ids"), |c| {
        // 0..3: takes all; leaves at once; leaves at the end; 3: the processing side is gone
        let cons = c.choose(4);
        let end = if cons == 3 { 0 } else { c.choose(3) };
        let keep = cons != 3 && c.flag();
        let mut ops = vec![];
        let mut open = [false; 2];
        for _ in 0..n - 1 {
            match c.choose(9) {
                0 => break,
                k => {
                    let (key, x) = ((k - 1) / 4, (k - 1) % 4);
                    let frag = x < 2;
                    open[key] = frag;
                    ops.push((key, frag, [0, 2, 0, 1][x]));
                }
            }
        }
        for (k, o) in open.iter().enumerate() {
            if *o {
                ops.push((k, false, 1));
            }
        }
        if ops.is_empty() {
            return Ok(());
        }
        c.note(|| format!("consumer {cons}, end {end}, handle {}: {ops:?}", if keep { "polled" } else { "dropped" }));
        let (tx, rx) = unbounded_channel::<(Acker, UnboundedReceiver<Message>)>();
        let d = Dispatcher::new(tx);
        let mut rx = Some(rx).filter(|_| cons != 3);
        let mut at = 0;
        for i in 0..warm + reps {
            if i == warm {
                at = live();
            }
            let mut jobs = vec![];
            let mut handles = vec![];
            for (k, frag, n) in &ops {
                let f = HaproxyNotify { fragmented: *frag, stream_id: i, frame_id: *k as u64 + 1, messages: (0..*n).map(|_| m_of(i)).collect() };
                match d.recieve_messages(f) {
                    Ok(Some(h)) if keep => handles.push(h),
                    Ok(_) => {}
                    Err(e) if cons != 3 => fail!("dispatching failed: {e}"),
                    Err(_) => {}
                }
                if let Some(rx) = &mut rx {
                    while let Ok((a, m)) = rx.try_recv() {
                        jobs.push((a, if cons == 1 { None } else { Some(m) }));
                    }
                }
            }
            for (mut a, m) in jobs {
                if let Some(mut m) = m {
                    if cons == 0 {
                        while m.try_recv().is_ok() {}
                    }
                }
                match end {
                    0 => drop(a.complete()),
                    1 => drop(a.abort()),
                    _ => drop(a),
                }
            }
            for mut h in handles {
                ensure!(h.try_recv().is_ok(), "a job that ended was not acknowledged");
            }
        }
        let more = live() - at;
        ensure!(more <= slack, "{reps} further rounds that left nothing open hold {more} bytes");
        c.eval(warm + reps);
        c.state(&(cons, end, keep, ops));
        Ok(())
    });
}

/// What a connection shows of itself.
fn transcript(clock: &std::rc::Rc<Clock>, conf: &Conf, before: &[usize], over: &Over, how: Deliver) -> Result<String, Violation> {
    let w = W::new();
    script_with(&w, if let Over::Text(t) = over { t.clone() } else { String::new() });
    let o = over.clone();
    w.get().make = Box::new(move |_| match &o {
        Over::Make(m) => m.clone(),
        Over::Drop(2) => Mk::Later,
        _ => Mk::Ok,
    });
    let o = over.clone();
    let nb = before.iter().filter(|b| **b != 0).count();
    w.get().ready = Box::new(move |who, n| match (&o, who) {
        (Over::Unready(0), Who::Maker) => Rd::Err("not today".into()),
        (Over::Unready(1), Who::Svc(_)) if n >= nb => Rd::Err("not any more".into()),
        _ => Rd::Ready,
    });
    let rt = conf.runtime(&w);
    let root = CancellationToken::new();
    let mut seen = None;
    let k = std::cell::Cell::new(0u32);
    verif_sched::set_select(Some(Box::new(move |n| {
        k.set(k.get() + 1);
        k.get() % n
    })));
    let r = life_seen(clock, &rt, &w, &root, before, over, how, 1, &mut seen);
    verif_sched::set_select(None);
    let end = match r {
        Ok(()) => String::new(),
        Err(v) => v.0,
    };
    Ok(format!("{} {end} {:?}", seen.unwrap_or_default(), w.get().log))
}

pub fn c33(r: &mut Run) {
    crate::trace::install();
    crate::p_stream::c33(r);
    let depth = r.q(2usize, 3);
    r.go(cfg("connections", "connections that get into each of 250 ends after every sequence of up to 2 (thorough: 3) of: an open fragment, a notification, a fragmented one; input in three ways; with nobody listening and with everything listened to at each of 5 levels: the same frames, calls, results and end"), |c| {
        let os = overs();
        let over = os[c.choose(os.len())].clone();
        let how = [Deliver::Lockstep, Deliver::Burst, Deliver::Drip][c.choose(3)];
        let mut before = vec![];
        if !matches!(over, Over::Early(_) | Over::Make(_) | Over::Unready(0) | Over::Drop(2)) {
            // the texts and contents need no more history
            let depth = if depth_one(&over) { 1 } else { depth };
            for _ in 0..depth {
                match c.choose(4) {
                    0 => break,
                    k => before.push(k - 1),
                }
            }
        }
        if matches!(over, Over::Drop(3) | Over::Write(_)) && before.last() == Some(&0) {
            return Ok(());
        }
        c.note(|| format!("{over:?} after {before:?}, delivered {how:?}"));
        let conf = Conf::new().caps(&ALL).mpt(1000);
        let clock = Clock::new();
        let a = crate::trace::silently(|| transcript(&clock, &conf, &before, &over, how))?;
        for level in 1..=5 {
            let b = crate::trace::at(level, || transcript(&clock, &conf, &before, &over, how))?;
            ensure!(a == b, "without anybody listening: {a}; listened to at level {level}: {b}");
        }
        c.eval(6);
        c.state(&(format!("{over:?}"), before, how));
        Ok(())
    });
    let th = r.thorough();
    let mut with = |pre, which, f: fn(&mut Run)| {
        r.traced = Some((pre, which));
        f(r);
        r.traced = None;
    };
    with("C10", &["breaks"], crate::p_stream::c10);
    with("C09", &["faults"], crate::p_stream::c09);
    with("C11", if th { &["keys", "long"] } else { &["long"] }, crate::p_frag::c11);
    with("C13", if th { &["sequences", "long"] } else { &["long"] }, crate::p_job::c13);
    with("C15", &["actions", "values"], crate::p_job::c15);
    with("C20", if th { &["contents", "texts"] } else { &["texts"] }, crate::p_conn::c20);
    if th {
        with("C21", &["contents"], crate::p_conn::c21);
    }
    with("C18", &["first frames"], crate::p_conn::c18);
    with("C19", &["health checks", "slow transport"], crate::p_conn::c19);
    with("C22", if th { &["every type", "errors", "delivery", "sizes"] } else { &["errors", "delivery", "sizes"] }, crate::p_conn::c22);
    with("C23", &["texts", "limits", "answers", "fragments", "maker"], crate::p_conn::c23);
    with("C24", &["texts", "readiness", "shared maker"], crate::p_conn::c24);
    with("C25", &["queued", "blocked writes", "floods"], crate::p_conn::c25);
    with("C26", &["serving"], crate::p_agent::c26);
    if th {
        with("C27", &["interleaved"], crate::p_agent::c27);
    }
    with("C28", &["faults", "lasting", "resets"], crate::p_agent::c28);
    if crate::trace::seen() == 0 {
        println!("note: nothing was traced");
    }
}

#[allow(dead_code)]
fn _unused(_: Sh) {}
