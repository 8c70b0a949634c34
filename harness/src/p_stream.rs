//! C06-C10: frames over a byte stream.
use crate::alloc;
use crate::conn;
use crate::drv::{Sh, Step, Task};
use crate::engine::*;
use crate::io::{pipe, End, FlushAns, Peer, ReadAns, SimIo, WriteAns};
use crate::p_codec::{ack, corpus, msg, notify};
use crate::run::Run;
use crate::wire;
use futures::FutureExt;
use haproxy_spoa::spop::{Action, BufCodec, Codec, Error, Frame, Framer, Scope, Typed};
use std::io::ErrorKind;

/// A notify frame whose content is exactly `n` bytes (n >= 9 or 7).
pub fn sized(n: usize) -> Frame {
    let base = wire::body(&notify(false, 1, 1, vec![])).len();
    if n == base {
        return notify(false, 1, 1, vec![]);
    }
    // name length prefix grows with the name
    for k in (n.saturating_sub(base + 12))..=n {
        let f = notify(false, 1, 1, vec![msg(&"n".repeat(k), &[])]);
        if wire::body(&f).len() == n {
            return f;
        }
        // one more argument to hit sizes the name length cannot
        let f = notify(false, 1, 1, vec![msg(&"n".repeat(k), &[("", Typed::Null)])]);
        if wire::body(&f).len() == n {
            return f;
        }
    }
    panic!("machinery: no frame of {n} bytes")
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Mode {
    Framer,
    Codec,
    Buf,
}
const MODES: [Mode; 3] = [Mode::Framer, Mode::Codec, Mode::Buf];

enum Reader {
    F(Framer, SimIo),
    C(Codec<SimIo>),
    B(BufCodec<SimIo>),
}
impl Reader {
    fn new(m: Mode, io: SimIo, max: usize) -> Reader {
        match m {
            Mode::Framer => Reader::F(Framer::new(max), io),
            Mode::Codec => Reader::C(Codec::new(io, Framer::new(max))),
            Mode::Buf => Reader::B(BufCodec::buffered(io, Framer::new(max))),
        }
    }
    async fn read(&mut self) -> Result<Frame, Error> {
        match self {
            Reader::F(f, io) => f.read_frame(io).await,
            Reader::C(c) => c.read_frame().await,
            Reader::B(c) => c.read_frame().await,
        }
    }
    async fn write(&mut self, fr: Frame) -> Result<usize, Error> {
        match self {
            Reader::F(f, io) => f.write_frame(io, fr).await,
            Reader::C(c) => c.write_frame(fr).await,
            Reader::B(c) => c.write_frame(fr).await,
        }
    }
}

/// What the reference says a stream holds: the verdict per frame, and its end offset.
fn items(s: &[u8]) -> Vec<(Result<Frame, ()>, usize)> {
    let mut v = vec![];
    let mut p = 0;
    for b in wire::split(s).0 {
        p += 4 + b.len();
        v.push((
            match wire::parse(b) {
                wire::Verdict::Frame(f) => Ok(f),
                wire::Verdict::Reject(_) => Err(()),
                x => panic!("machinery: {x:?} in a stream"),
            },
            p,
        ));
    }
    v
}

fn same(got: &Result<Frame, Error>, want: &Result<Frame, ()>) -> bool {
    match (got, want) {
        (Ok(a), Ok(b)) => a == b,
        (Err(Error::Io), Err(())) => false,
        (Err(_), Err(())) => true,
        _ => false,
    }
}
fn brief(r: &Result<Frame, Error>) -> String {
    let s = format!("{r:?}");
    let mut i = s.len().min(160);
    while !s.is_char_boundary(i) {
        i -= 1;
    }
    s[..i].to_string()
}

fn streams(big: bool) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![];
    let small = notify(false, 5, 240, vec![msg("m", &[("k", Typed::Int32(-1))])]);
    let tiny = notify(true, 0, 1, vec![]);
    let a = ack(false, true, 1, 2, vec![Action::UnsetVar { scope: Scope::Process, name: "x".into() }]);
    let cat = |fs: &[&[u8]]| fs.concat();
    let bad = wire::with_len(&[wire::T_NOTIFY, 0, 0, 0, 1, 1, 0]);
    let empty = wire::with_len(&[]);
    v.push(cat(&[&wire::wire(&tiny)]));
    v.push(cat(&[&wire::wire(&small), &wire::wire(&tiny), &wire::wire(&a)]));
    v.push(cat(&[&wire::wire(&tiny), &bad, &wire::wire(&a)]));
    v.push(cat(&[&empty, &wire::wire(&tiny), &empty, &wire::wire(&small)]));
    for f in corpus() {
        v.push(cat(&[&wire::wire(&f), &wire::wire(&tiny)]));
    }
    if big {
        v.clear();
        for n in [8180, 8188, 8189, 8192, 16380, 16384] {
            v.push(cat(&[&wire::wire(&sized(n)), &wire::wire(&small), &wire::wire(&sized(300))]));
            v.push(cat(&[&wire::wire(&tiny), &wire::wire(&sized(n)), &wire::wire(&tiny)]));
        }
    }
    v
}

/// Reads the whole stream; every frame checked as it comes.
fn read_all(c: &mut Ctx, mode: Mode, stream: &[u8], io: SimIo, peer: &Peer, how: &dyn Fn() -> String) -> Res {
    let want = items(stream);
    let mut r = Reader::new(mode, io, 16384);
    for (i, (w, end)) in want.iter().enumerate() {
        let mut t = Task::new(r.read());
        match t.run() {
            Step::Done => {}
            Step::Waiting => fail!("{} ({mode:?}): reading frame {i} was not woken although its bytes are there", how()),
            Step::Livelock => fail!("{} ({mode:?}): reading frame {i} spins", how()),
        }
        let got = t.out.take().unwrap();
        drop(t);
        ensure!(same(&got, w), "{} ({mode:?}): frame {i} was read as {}", how(), brief(&got));
        if mode != Mode::Buf {
            ensure!(peer.consumed() == *end, "{} ({mode:?}): reading frame {i} took {} bytes, expected {end}", how(), peer.consumed());
        }
        c.state(&(mode, fp(stream), i, peer.consumed()));
    }
    c.eval(want.len() as u64);
    Ok(())
}

/// Cuts reads at these offsets; `pend` bit i: nothing ready at cut i.
fn cut_reads(peer: &Peer, cuts: Vec<usize>, pend: u32) {
    let p2 = peer.clone();
    let mut done = 0u32;
    peer.0.borrow_mut().on_read = Some(Box::new(move |_, _| {
        let at = p2.0.borrow().consumed;
        for (i, c) in cuts.iter().enumerate() {
            if *c == at && pend >> i & 1 == 1 && done >> i & 1 == 0 {
                done |= 1 << i;
                return ReadAns::Pending;
            }
            if *c > at {
                return ReadAns::Give(c - at);
            }
        }
        ReadAns::Give(usize::MAX)
    }));
}

pub fn c06(r: &mut Run) {
    let st = streams(false);
    let k3 = r.q(90usize, 400);
    r.go(cfg("cuts", "every way to cut streams of small frames at up to 2 (short streams and thorough: 3) places, with and without nothing ready at each cut, unbuffered and buffered"), |c| {
        let s = c.of(&st).clone();
        let mode = *c.of(&MODES);
        let a = c.choose(s.len());
        for b in a..s.len() {
            let third: Vec<usize> = if s.len() <= k3 { (b..s.len()).collect() } else { vec![b] };
            for d in third {
                let mut cuts = vec![a, b, d];
                cuts.dedup();
                for pend in 0..1u32 << cuts.len() {
                    let (io, peer) = pipe();
                    peer.send(&s);
                    cut_reads(&peer, cuts.clone(), pend);
                    let cc = cuts.clone();
                    read_all(c, mode, &s, io, &peer, &move || format!("cut at {cc:?}, waiting mask {pend:b}"))?;
                }
            }
        }
        c.note(|| format!("{mode:?}, stream of {} bytes, first cut at {a}", s.len()));
        Ok(())
    });
    r.go(cfg("drip", "every fixed read size, with and without a wait before every read"), |c| {
        let s = c.of(&st).clone();
        let mode = *c.of(&MODES);
        let pend = c.choose(3);
        for n in 1..=s.len() {
            let (io, peer) = pipe();
            peer.send(&s);
            let mut k = 0u32;
            peer.0.borrow_mut().on_read = Some(Box::new(move |_, _| {
                k += 1;
                if pend > 0 && k % (pend as u32 + 1) == 1 {
                    ReadAns::Pending
                } else {
                    ReadAns::Give(n)
                }
            }));
            read_all(c, mode, &s, io, &peer, &|| format!("{n} bytes per read, waits {pend}"))?;
        }
        Ok(())
    });
    r.go(cfg("arrival", "bytes that arrive late: after every byte of the stream the reader waits without spinning and is woken by the next arrival; two arrivals at every pair of places"), |c| {
        let s = c.of(&st[..st.len().min(9)]).clone();
        let mode = *c.of(&MODES);
        let a = c.choose(s.len() + 1);
        for b in a..=s.len() {
            arrive(c, mode, &s, &[a, b])?;
        }
        if a == 0 {
            let all: Vec<usize> = (0..s.len()).collect();
            arrive(c, mode, &s, &all)?;
        }
        Ok(())
    });
    let bg = streams(true);
    r.go(cfg("large", "streams with frames around the 8 KiB buffer and the 16 KiB limit, cut at every pair of places near buffer and frame boundaries"), |c| {
        let s = c.of(&bg).clone();
        let mode = *c.of(&MODES);
        let mut pts: Vec<usize> = vec![];
        let mut near = |p: usize, w: usize| {
            for x in p.saturating_sub(w)..=p + w {
                if x < s.len() {
                    pts.push(x);
                }
            }
        };
        near(8192, 5);
        near(16384, 5);
        for (_, e) in items(&s) {
            near(e, 5);
        }
        near(2, 3);
        pts.sort_unstable();
        pts.dedup();
        let a = *c.of(&pts);
        for b in pts.iter().filter(|b| **b >= a) {
            for pend in [0, 1, 3] {
                let (io, peer) = pipe();
                peer.send(&s);
                cut_reads(&peer, vec![a, *b], pend);
                read_all(c, mode, &s, io, &peer, &|| format!("{} bytes cut at {a},{b}, waiting mask {pend:b}", s.len()))?;
            }
        }
        Ok(())
    });
    let top = r.q(2200usize, 16_384);
    r.go(cfg("sizes", "a frame of every size from 9 bytes up to 2200 (thorough: 16384) between two short ones: whole, 1000 bytes at a time, and cut in and behind its length, before its last byte and behind it, with and without a wait there"), |c| {
        let mode = *c.of(&MODES);
        let part = c.choose(32);
        let tiny = wire::wire(&notify(true, 0, 1, vec![]));
        for n in (9..=top).filter(|n| n % 32 == part) {
            let s = [&tiny[..], &wire::wire(&sized(n)), &tiny].concat();
            let at = tiny.len();
            for cut in [0, 2, 4, 5, n + 3, n + 4] {
                for pend in 0..2 {
                    let (io, peer) = pipe();
                    peer.send(&s);
                    if cut == 0 {
                        peer.0.borrow_mut().on_read = Some(Box::new(move |_, _| ReadAns::Give(if pend == 0 { usize::MAX } else { 1000 })));
                    } else {
                        cut_reads(&peer, vec![at + cut], pend);
                    }
                    read_all(c, mode, &s, io, &peer, &|| format!("a frame of {n} bytes, cut {cut}, waiting mask {pend}"))?;
                }
            }
        }
        Ok(())
    });
}

/// The stream arrives in pieces cut at `at`; in between the reader must wait, then be woken.
fn arrive(c: &mut Ctx, mode: Mode, s: &[u8], at: &[usize]) -> Res {
    let want = items(s);
    let (io, peer) = pipe();
    let mut r = Reader::new(mode, io, 16384);
    let mut pieces = vec![];
    let mut p = 0;
    for a in at.iter().chain([&s.len()]) {
        pieces.push(&s[p..*a]);
        p = *a;
    }
    let mut sent = 0;
    let mut next = pieces.into_iter();
    for (i, (w, end)) in want.iter().enumerate() {
        let mut t = Task::new(r.read());
        loop {
            let polls = t.polls;
            match t.run() {
                Step::Done => {
                    ensure!(sent >= *end, "{mode:?}: frame {i} was delivered when only {sent} of {end} bytes had arrived");
                    break;
                }
                Step::Livelock => fail!("{mode:?}: the reader spins while nothing arrives"),
                Step::Waiting => {
                    ensure!(sent < *end, "{mode:?}: frame {i} has arrived whole (pieces at {at:?}) but the reader still waits");
                    ensure!(t.polls - polls < 64, "{mode:?}: polled {} times for one arrival", t.polls - polls);
                    match next.next() {
                        Some(b) => {
                            let was = b.is_empty();
                            peer.send(b);
                            sent += b.len();
                            ensure!(t.woken() || was, "{mode:?}: the reader was not woken by {} new bytes (pieces at {at:?})", b.len());
                        }
                        None => fail!("{mode:?}: the reader waits at the end of the stream (pieces at {at:?})"),
                    }
                }
            }
        }
        let got = t.out.take().unwrap();
        drop(t);
        ensure!(same(&got, w), "{mode:?}, pieces at {at:?}: frame {i} was read as {}", brief(&got));
        c.state(&(mode, fp(s), i, sent));
    }
    c.eval(1);
    Ok(())
}

pub fn c07(r: &mut Run) {
    crate::p_conn::late(r, vec![crate::p_conn::Late::Size(false), crate::p_conn::Late::Size(true)]);
    crate::p_conn::agreed(r, false);
    let mut ns: Vec<usize> = vec![0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 11, 100, 127, 128, 239, 240, 255, 256, 257, 4095, 4096, 8191, 8192, 16380, 16383, 16384, 32768, 65535, 65536, u32::MAX as usize, 1 << 32, (1 << 32) + 7, (1 << 32) + 16384, 1 << 63, usize::MAX];
    if r.thorough() {
        ns.extend(12..=300);
        ns.extend([1 << 17, 1 << 20, (1 << 24) - 1, 1 << 24]);
        ns.sort_unstable();
        ns.dedup();
    }
    r.go(cfg("limit", "every limit of a dense and boundary list x every declared length around it and at all 32-bit boundaries x no, part or all of the body there, unbuffered and buffered, length bytes arriving one by one or at once"), |c| {
        let n = *c.of(&ns);
        let mode = *c.of(&MODES);
        let mut ds: Vec<u64> = vec![0, 1, u32::MAX as u64, u32::MAX as u64 - 1, 1 << 31, (1 << 31) - 1, (1 << 31) + 1];
        for k in 0..32 {
            for w in -1i64..=1 {
                ds.push(((1i64 << k) + w) as u64);
            }
        }
        for w in 0..=8u64 {
            ds.push((n as u64).saturating_add(w));
            ds.push((n as u64).saturating_sub(w));
        }
        for m in 1..4u64 {
            // lengths whose low bits look acceptable
            ds.push((m << 16) + 7);
            ds.push((m << 24) + 7);
            ds.push((m << 24).saturating_add(n as u64));
            ds.push((m << 16).saturating_add(n as u64));
            ds.push((m << 8) + 7);
        }
        // with a huge limit a huge length may be given room
        ds.retain(|d| *d <= if n >= 1 << 25 { 1 << 21 } else { u32::MAX as u64 });
        ds.sort_unstable();
        ds.dedup();
        for d in ds {
            limit_case(c, mode, n, d as u32)?;
        }
        Ok(())
    });
    r.go(cfg("every-length", "limit N and every declared length 0..2N+16, for N = 0..300"), |c| {
        let n = c.choose(301);
        for d in 0..(2 * n + 16) as u32 {
            limit_case(c, Mode::Codec, n, d)?;
        }
        Ok(())
    });
    changes(r, true);
}

/// A codec whose limit is changed between frames, reading (or writing) in between.
fn changes(r: &mut Run, reading: bool) {
    let d = r.q(3usize, 4);
    r.go(cfg("changes", "up to 3 (thorough: 4) frames of 6 sizes at and next to three limits read or written by one codec, unbuffered and buffered, with its limit set to another before any of them; everything there at the start or each frame just before it is read: each frame goes by the limit set last"), |c| {
        let mode = [Mode::Codec, Mode::Buf][c.choose(2)];
        let early = c.flag();
        let lims = [20usize, 40, 300];
        let sizes = [20usize, 21, 40, 41, 300, 301];
        let first = *c.of(&lims);
        let mut plan = vec![];
        for i in 0..d {
            let set = c.choose(4);
            // the frames of the other direction come in between
            let k = c.choose(sizes.len() + usize::from(i > 0));
            if k == sizes.len() {
                break;
            }
            plan.push((set.checked_sub(1).map(|k| lims[k]), sizes[k]));
        }
        c.note(|| format!("{mode:?}, limit {first}, then (limit, size) {plan:?}, all there at the start: {early}"));
        let (io, peer) = pipe();
        let mut cd = Reader::new(mode, io, first);
        let mut lim = first;
        if early && reading {
            for (_, n) in &plan {
                peer.send(&wire::wire(&sized(*n)));
            }
        }
        let mut out = vec![];
        for (i, (set, n)) in plan.iter().enumerate() {
            if let Some(m) = set {
                lim = *m;
                let f = Framer::new(*m);
                match &mut cd {
                    Reader::C(c) => c.set_framer(f),
                    Reader::B(c) => c.set_framer(f),
                    Reader::F(g, _) => *g = f,
                }
            }
            let f = sized(*n);
            c.eval(1);
            c.state(&(mode, early, reading, lim, *n, i));
            if reading {
                if !early {
                    peer.send(&wire::wire(&f));
                }
                let Some(got) = cd.read().now_or_never() else { fail!("frame {i} ({n} bytes, limit {lim}) is waited for although it is there") };
                if *n > lim {
                    ensure!(matches!(got, Err(Error::BadFrameSize)), "frame {i} of {n} bytes, limit {lim}: {}", brief(&got));
                    return Ok(());
                }
                ensure!(got == Ok(f), "frame {i} of {n} bytes, limit {lim}: {}", brief(&got));
            } else {
                let Some(got) = cd.write(f.clone()).now_or_never() else { fail!("the writer waits although everything is accepted") };
                if *n > lim {
                    ensure!(matches!(got, Err(Error::TooBig)), "frame {i} of {n} bytes, limit {lim}: {got:?}");
                } else {
                    ensure!(got == Ok(n + 4), "frame {i} of {n} bytes, limit {lim}: {got:?}");
                    out.extend(wire::wire(&f));
                }
                ensure!(peer.out() == out, "frame {i} of {n} bytes, limit {lim}: the wire holds something else than the frames that were sent");
            }
        }
        Ok(())
    });
}

fn limit_case(c: &mut Ctx, mode: Mode, n: usize, d: u32) -> Res {
    c.eval(1);
    c.state(&(mode, n, d));
    let du = d as usize;
    let over = du > n;
    // 0: length only, at once; 1: length byte by byte; 2: length and some body; 3: everything
    for how in 0..4 {
        if how == 3 && over && du > 1 << 17 {
            continue;
        }
        let (io, peer) = pipe();
        let mut r = Reader::new(mode, io, n);
        alloc::start();
        let mut t = Task::new(r.read());
        let lenb = d.to_be_bytes();
        let mut sent = 0usize;
        if how == 1 {
            for i in 0..4 {
                ensure!(t.run() == Step::Waiting, "{mode:?}: the reader ended after {i} of 4 length bytes");
                peer.send(&lenb[i..=i]);
            }
        } else {
            peer.send(&lenb);
        }
        let valid = du >= 9 || du == 7;
        let body: Vec<u8> = if how == 3 && valid && du <= 1 << 24 { wire::body(&sized(du)) } else { vec![0xEE; du.min(1 << 17)] };
        match how {
            2 => {
                let b = &body[..body.len().min(5)];
                peer.send(b);
                sent = b.len();
            }
            3 => {
                peer.send(&body);
                // the start of another frame behind it
                peer.send(&[0, 0]);
                sent = du;
            }
            _ => {}
        }
        let st = t.run();
        if over {
            ensure!(st == Step::Done, "{mode:?}, limit {n}: a frame of {d} bytes is waited for instead of refused");
            let got = t.out.take().unwrap();
            ensure!(matches!(got, Err(Error::BadFrameSize)), "{mode:?}, limit {n}, declared {d}: {}", brief(&got));
            drop(t);
            let (peak, _) = alloc::peak();
            if mode != Mode::Buf {
                ensure!(peer.consumed() == 4, "{mode:?}, limit {n}: {} bytes of a refused frame of {d} were consumed", peer.consumed());
            }
            // what the harness itself holds: the bytes sent
            let allow = 4096 + 6 * body.len() + if mode == Mode::Buf { 16384 } else { 0 };
            ensure!(peak <= allow, "{mode:?}, limit {n}, declared {d}: {peak} bytes of memory for a refused frame");
        } else if sent >= du {
            ensure!(st == Step::Done, "{mode:?}, limit {n}: a frame of {d} bytes that is there is not read");
            let got = t.out.take().unwrap();
            drop(t);
            if how == 3 && valid {
                let w = sized(du);
                ensure!(got == Ok(w), "{mode:?}, limit {n}: a frame of {d} bytes was read as {}", brief(&got));
            } else {
                ensure!(matches!(got, Err(Error::Invalid)), "{mode:?}, limit {n}: {d} bytes that are no frame were read as {}", brief(&got));
            }
            if mode != Mode::Buf {
                ensure!(peer.consumed() == 4 + du, "{mode:?}, limit {n}, {d} bytes: {} consumed", peer.consumed());
            }
        } else {
            ensure!(st == Step::Waiting, "{mode:?}, limit {n}: the reader did not wait for the body of {d} bytes: {:?}", t.out.as_ref().map(brief));
            let (peak, _) = alloc::peak();
            ensure!(peak <= n.saturating_add(4096 + 6 * body.len() + 16384), "{mode:?}, limit {n}, declared {d}: {peak} bytes of memory");
        }
    }
    Ok(())
}

pub fn c08(r: &mut Run) {
    let th = r.thorough();
    r.go(cfg("writer", "every corpus frame and frames of every size 7..700 and around 4, 8, 16, 64 KiB against every limit within 8 bytes of the frame's size and far ones, up to 2^64-1"), |c| {
        let cs = corpus();
        let mut sizes: Vec<usize> = (9..=if th { 3000 } else { 700 }).collect();
        for k in [4096usize, 8192, 16384, 65536] {
            sizes.extend(k - 9..=k + 9);
        }
        sizes.push(7);
        let i = c.choose(cs.len() + sizes.len());
        let f = if i < cs.len() { cs[i].clone() } else { sized(sizes[i - cs.len()]) };
        let mode = *c.of(&MODES);
        let l = wire::body(&f).len();
        let mut ms: Vec<usize> = vec![0, 1, 4, l / 2, 2 * l, l + 100];
        for d in 0..=8 {
            ms.push(l + d);
            ms.push(l.saturating_sub(d));
        }
        // and limits above what 32 bits hold
        ms.extend([1 << 31, u32::MAX as usize, 1 << 32, (1 << 32) + 1, (1 << 32) + l - 1, (7 << 32) + l, 1 << 63, usize::MAX]);
        for m in ms {
            let (io, peer) = pipe();
            let mut w = Reader::new(mode, io, m);
            let got = match w.write(f.clone()).now_or_never() {
                Some(x) => x,
                None => fail!("the writer waits although everything is accepted"),
            };
            let out = peer.out();
            if l <= m {
                ensure!(got == Ok(l + 4), "{mode:?}: a frame of {l} bytes with the limit {m}: {got:?}");
                ensure!(out.len() == l + 4, "{mode:?}: {} bytes on the wire for a frame of {l}", out.len());
            } else {
                ensure!(matches!(got, Err(Error::TooBig)), "{mode:?}: a frame of {l} bytes with the limit {m}: {got:?}");
                ensure!(out.is_empty(), "{mode:?}: {} bytes of a refused frame on the wire", out.len());
                // the writer stays usable
                let small = notify(false, 1, 1, vec![]);
                if m >= 7 {
                    let got = w.write(small.clone()).now_or_never();
                    ensure!(got == Some(Ok(11)), "{mode:?}: after a refused frame: {got:?}");
                    ensure!(peer.out() == wire::wire(&small), "{mode:?}: after a refused frame the wire holds something else");
                }
            }
            c.eval(1);
            c.state(&(mode, l, m));
        }
        Ok(())
    });
    conn::c08(r);
    changes(r, false);
}

pub fn c09(r: &mut Run) {
    let d = r.q(7u32, 10);
    r.go(
        cfg("faults", "two frames in a row; every answer of the transport to every write (all, one byte, half, all but one, wait, refuse, three errors) and flush (done, wait, error), up to 7 (thorough: 10) departures from `all`/`done`").bound(d),
        |c| {
            let mode = *c.of(&MODES);
            let fs = [notify(false, 1, 1, vec![]), ack(false, false, 300, 2, vec![Action::UnsetVar { scope: Scope::Session, name: "x".into() }])];
            let fs = if c.flag() { fs.to_vec() } else { fs.into_iter().rev().collect() };
            write_case(c, mode, &fs, None)
        },
    );
    let cs = corpus();
    r.go(cfg("chunks", "every corpus frame and large frames with every fixed chunk size, with waits before none, every or every other write and flush, and a failure after every number of bytes"), |c| {
        let mode = *c.of(&MODES);
        let k = c.choose(cs.len() + 4);
        let f = if k < cs.len() { cs[k].clone() } else { sized([300, 8192, 16380, 16384][k - cs.len()]) };
        let l = wire::wire(&f).len();
        let waits = c.choose(3);
        let steps: Vec<usize> = if l > 200 { vec![1, 2, 3, 7, 100, 4095, 4096, 8191, 8192, 8193, l - 1, l] } else { (1..=l).collect() };
        for n in steps {
            write_case(c, mode, &[f.clone(), notify(false, 9, 9, vec![])], Some(Fixed { chunk: n, waits, fail_at: None, kind: ErrorKind::BrokenPipe }))?;
        }
        let at: Vec<usize> = if l > 200 { vec![0, 1, 4, 5, 8192, l - 1] } else { (0..l + 11).collect() };
        for a in at {
            for kind in [Some(ErrorKind::ConnectionReset), Some(ErrorKind::BrokenPipe), Some(ErrorKind::TimedOut), None] {
                for chunk in [usize::MAX, 3] {
                    write_case(c, mode, &[f.clone(), notify(false, 9, 9, vec![])], Some(Fixed { chunk, waits, fail_at: Some((a, kind.is_none())), kind: kind.unwrap_or(ErrorKind::Other) }))?;
                }
            }
        }
        Ok(())
    });
    let top = r.q(2200usize, 33_000);
    r.go(cfg("sizes", "a frame of every size from 9 bytes up to 2200 (thorough: 33000) and a short one after it, the transport taking all at once, all but the last byte, or waiting first"), |c| {
        let mode = *c.of(&MODES);
        let part = c.choose(32);
        for n in (9..=top).filter(|n| n % 32 == part) {
            let f = sized(n);
            let l = wire::wire(&f).len();
            for (chunk, waits) in [(usize::MAX, 0), (l - 1, 0), (usize::MAX, 1)] {
                write_case(c, mode, &[f.clone(), notify(false, 9, 9, vec![])], Some(Fixed { chunk, waits, fail_at: None, kind: ErrorKind::Other }))?;
            }
        }
        Ok(())
    });
}

struct Fixed {
    chunk: usize,
    waits: usize,
    /// fail once this many bytes were taken; true = by accepting nothing
    fail_at: Option<(usize, bool)>,
    kind: ErrorKind,
}

fn write_case(c: &mut Ctx, mode: Mode, fs: &[Frame], fixed: Option<Fixed>) -> Res {
    let sh = Sh::new(c);
    let (io, peer) = pipe();
    {
        let mut p = peer.0.borrow_mut();
        match &fixed {
            None => {
                p.on_write = Some(Box::new(move |n| match sh.deviate(9) {
                    0 => WriteAns::Take(n),
                    1 => WriteAns::Take(1),
                    2 => WriteAns::Take(n.div_ceil(2)),
                    3 => WriteAns::Take(n.saturating_sub(1).max(1)),
                    4 => WriteAns::Wait,
                    5 => WriteAns::Zero,
                    6 => WriteAns::Fail(ErrorKind::BrokenPipe),
                    7 => WriteAns::Fail(ErrorKind::Interrupted),
                    _ => WriteAns::Fail(ErrorKind::ConnectionReset),
                }));
                p.on_flush = Some(Box::new(move || match sh.deviate(3) {
                    0 => FlushAns::Ok,
                    1 => FlushAns::Wait,
                    _ => FlushAns::Fail(ErrorKind::BrokenPipe),
                }));
            }
            Some(x) => {
                let (chunk, waits, fail_at, kind) = (x.chunk, x.waits, x.fail_at, x.kind);
                let mut k = 0usize;
                let p2 = peer.clone();
                p.on_write = Some(Box::new(move |n| {
                    k += 1;
                    if waits > 0 && k % (waits + 1) == 1 {
                        return WriteAns::Wait;
                    }
                    let out = p2.0.borrow().out.len();
                    if let Some((a, zero)) = fail_at {
                        if out >= a {
                            return if zero { WriteAns::Zero } else { WriteAns::Fail(kind) };
                        }
                        return WriteAns::Take(n.min(chunk).min(a - out));
                    }
                    WriteAns::Take(n.min(chunk))
                }));
                let mut q = 0usize;
                p.on_flush = Some(Box::new(move || {
                    q += 1;
                    if waits > 0 && q % (waits + 1) == 1 {
                        FlushAns::Wait
                    } else {
                        FlushAns::Ok
                    }
                }));
            }
        }
    }
    let mut w = Reader::new(mode, io, 1 << 16);
    let mut expect: Vec<u8> = vec![];
    for (i, f) in fs.iter().enumerate() {
        let bytes = wire::wire(f);
        let mut t = Task::new(w.write(f.clone()));
        let st = t.run();
        ensure!(st == Step::Done, "{mode:?}: writing frame {i} {}", if st == Step::Waiting { "was not woken" } else { "spins" });
        let got = t.out.take().unwrap();
        drop(t);
        let p = peer.0.borrow();
        let failed = p.write_failed;
        sh.state(&(mode, i, p.out.len(), p.flushed, failed));
        match got {
            Ok(n) => {
                expect.extend(&bytes);
                ensure!(!failed, "{mode:?}: writing frame {i} succeeded although the transport failed");
                ensure!(n == bytes.len(), "{mode:?}: frame {i} of {} bytes reported as {n}", bytes.len());
                ensure!(p.out == expect, "{mode:?}: after frame {i} the transport holds {} bytes, expected {} (first difference at {:?})", p.out.len(), expect.len(), p.out.iter().zip(&expect).position(|(a, b)| a != b));
                ensure!(p.flushed == p.out.len(), "{mode:?}: frame {i} was reported written, {} of {} bytes are flushed", p.flushed, p.out.len());
            }
            Err(e) => {
                ensure!(failed || p.write_intr, "{mode:?}: writing frame {i} failed ({e}) although the transport did not");
                ensure!(e == Error::Io, "{mode:?}: a transport failure is reported as {e:?}");
                expect.extend(&bytes);
                ensure!(expect.starts_with(&p.out), "{mode:?}: what was written before the failure is no prefix of the frames");
                break;
            }
        }
    }
    sh.eval(1);
    Ok(())
}

pub fn c10(r: &mut Run) {
    let st = streams(false);
    let kinds = [End::Eof, End::Fail(ErrorKind::ConnectionReset), End::Fail(ErrorKind::UnexpectedEof), End::Fail(ErrorKind::TimedOut), End::Fail(ErrorKind::BrokenPipe), End::Fail(ErrorKind::Other), End::Fail(ErrorKind::InvalidData), End::Fail(ErrorKind::NotConnected)];
    r.go(cfg("breaks", "every stream of small frames ended and failed (7 kinds) at every byte, read whole, byte by byte and with waits, the end known before or arriving while the reader waits, unbuffered and buffered"), |c| {
        let s = c.of(&st).clone();
        let mode = *c.of(&MODES);
        let at = c.choose(s.len() + 1);
        for k in kinds {
            for drip in [0usize, 1, 2, 3, 5] {
                for late in [false, true] {
                    break_case(c, mode, &s, at, k, drip, late)?;
                }
            }
        }
        Ok(())
    });
    let bg = streams(true);
    r.go(cfg("large", "streams with frames around 8 and 16 KiB, broken near every buffer and frame boundary"), |c| {
        let s = c.of(&bg).clone();
        let mode = *c.of(&MODES);
        let mut pts: Vec<usize> = vec![0, 1, 2, 3, 4, 5];
        for (_, e) in items(&s) {
            for x in e.saturating_sub(6)..e + 6 {
                pts.push(x);
            }
        }
        pts.extend(8186..8200);
        pts.extend(16380..16390);
        pts.retain(|p| *p <= s.len());
        let at = *c.of(&pts);
        for k in kinds {
            for drip in [0usize, 4096, 1000] {
                break_case(c, mode, &s, at, k, drip, false)?;
                break_case(c, mode, &s, at, k, drip, true)?;
            }
        }
        Ok(())
    });
    let top = r.q(2200usize, 9000);
    r.go(cfg("sizes", "a frame of every size from 9 bytes up to 2200 (thorough: 9000) and a short one after it: the stream ends or fails in its length, one byte before its end, at its end, in the next one's length and one byte before the next one's end"), |c| {
        let n = 9 + c.choose(top - 8);
        let mode = *c.of(&MODES);
        let one = wire::wire(&sized(n));
        let next = wire::wire(&notify(false, 1, 3, vec![]));
        let s = [one.clone(), next.clone()].concat();
        for at in [1, 3, 4, 5, one.len() / 2, one.len() - 1, one.len(), one.len() + 1, one.len() + 3, one.len() + 4, s.len() - 1, s.len()] {
            for k in [End::Eof, End::Fail(ErrorKind::ConnectionReset)] {
                for late in [false, true] {
                    break_case(c, mode, &s, at, k, if late { 500 } else { 0 }, late)?;
                }
            }
        }
        Ok(())
    });
    r.go(cfg("declared", "every declared length up to the limit and beyond with every shorter content, then the end"), |c| {
        let n = c.choose(70);
        let mode = *c.of(&MODES);
        for have in 0..n {
            for fin in [End::Eof, End::Fail(ErrorKind::ConnectionReset)] {
                let (io, peer) = pipe();
                let mut b = (n as u32).to_be_bytes().to_vec();
                // the content is a complete frame already, the declared length says more
                let f = wire::body(&notify(false, 1, 1, vec![]));
                b.extend((0..have).map(|i| f.get(i).copied().unwrap_or(0)));
                peer.send(&b);
                peer.end(fin);
                let mut r = Reader::new(mode, io, 64);
                let got = r.read().now_or_never();
                match got {
                    None => fail!("{mode:?}: declared {n}, {have} bytes there, stream ended: the reader waits"),
                    Some(Ok(f)) => fail!("{mode:?}: declared {n}, {have} bytes there: delivered {f:?}"),
                    Some(Err(e)) => {
                        let want = if n > 64 { Error::BadFrameSize } else { Error::Io };
                        ensure!(e == want, "{mode:?}: declared {n}, {have} bytes there, stream ended: {e:?}");
                    }
                }
                c.eval(1);
                c.state(&(mode, n, have));
            }
        }
        Ok(())
    });
}

fn break_case(c: &mut Ctx, mode: Mode, s: &[u8], at: usize, kind: End, drip: usize, late: bool) -> Res {
    let want: Vec<_> = items(s).into_iter().filter(|(_, e)| *e <= at).collect();
    let (io, peer) = pipe();
    peer.send(&s[..at]);
    if !late {
        peer.end(kind);
    }
    if drip > 0 {
        let mut k = 0;
        peer.0.borrow_mut().on_read = Some(Box::new(move |_, _| {
            k += 1;
            if drip % 2 == 1 && k % 2 == 1 {
                ReadAns::Pending
            } else {
                ReadAns::Give(drip)
            }
        }));
    }
    let mut r = Reader::new(mode, io, 16384);
    let desc = || format!("{mode:?}: {} of {} bytes, then {kind:?}{}", at, s.len(), if late { " later" } else { "" });
    for (i, (w, _)) in want.iter().enumerate() {
        let mut t = Task::new(r.read());
        ensure!(t.run() == Step::Done, "{}: frame {i} is complete but not delivered", desc());
        let got = t.out.take().unwrap();
        ensure!(same(&got, w), "{}: frame {i} was read as {}", desc(), brief(&got));
    }
    let mut t = Task::new(r.read());
    let mut st = t.run();
    if late {
        ensure!(st == Step::Waiting, "{}: the reader did not wait before the end: {:?}", desc(), t.out.as_ref().map(brief));
        peer.end(kind);
        ensure!(t.woken(), "{}: the reader is not woken by the end of the stream", desc());
        st = t.run();
    }
    ensure!(st == Step::Done, "{}: the reader waits for bytes that cannot come", desc());
    let got = t.out.take().unwrap();
    ensure!(matches!(got, Err(Error::Io)), "{}: the read gave {}", desc(), brief(&got));
    c.eval(1);
    c.state(&(mode, fp(s), at, kind == End::Eof, late));
    Ok(())
}

/// C33: frames read and written while somebody listens at each level, and while nobody does.
pub fn c33(r: &mut Run) {
    use crate::p_codec::corpus;
    use crate::trace;
    let n = corpus().len() + 3;
    let more = r.q(2usize, 16);
    let read = |mode: Mode, s: &[u8], max: usize| -> String {
        let (io, peer) = pipe();
        peer.send(s);
        peer.end(End::Eof);
        let mut r = Reader::new(mode, io, max);
        let mut out = String::new();
        for _ in 0..3 {
            let mut t = Task::new(tokio::task::unconstrained(r.read()));
            let st = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| t.run()));
            match st {
                Err(_) => return out + "panic: " + &verif_sched::take_panic().unwrap_or_default(),
                Ok(st) => out += &format!("{st:?} {:?} at {}; ", t.out.take().map(|x| sorted(x)), if mode == Mode::Buf { 0 } else { peer.consumed() }),
            }
        }
        out
    };
    r.go(cfg("reading", "every frame of the corpus whole, cut at every byte, with every byte changed in 2 (thorough: 16) ways and the length field in 6, and frames of 70000 and 16384 bytes, read by framer and codecs with nobody listening and with everything listened to at each of 5 levels: the same frames, errors and bytes taken"), |c| {
        let mode = MODES[c.choose(3)];
        let mut fs = corpus();
        fs.extend([sized(16384), sized(70000), sized(40)]);
        let f = &fs[c.choose(n)];
        let w = wire::wire(f);
        let level = 1 + c.choose(5) as u8;
        c.note(|| format!("{mode:?}, level {level}, {f:?}"));
        let one = |s: &[u8], max: usize| -> Res {
            let a = trace::silently(|| read(mode, s, max));
            let b = trace::at(level, || read(mode, s, max));
            ensure!(a == b, "reading {:02x?} ({mode:?}, limit {max}) gives {a}, listened to at level {level} {b}", &s[..s.len().min(100)]);
            Ok(())
        };
        one(&w, 16384)?;
        one(&w, 80000)?;
        let mut k = 2;
        let step = 1 + w.len() / 400;
        for i in (0..w.len()).step_by(step) {
            one(&w[..i], 16384)?;
            for x in [0x80u8, 0xff, 1, 2, 4, 8, 16, 32, 64, 3, 7, 0x0f, 0xf0, 0x55, 0xaa, 0x7f].iter().take(more) {
                let mut v = w.clone();
                v[i] ^= x;
                v.extend([0u8; 9]);
                one(&v, 16384)?;
                k += 1;
            }
        }
        for d in [0u32, 1, 3, 16384, 16385, u32::MAX] {
            let mut v = w.clone();
            v[..4].copy_from_slice(&d.to_be_bytes());
            one(&v, 16384)?;
        }
        c.eval(k);
        c.state(&(mode, level, &w));
        Ok(())
    });
    r.go(cfg("writing", "every frame of the corpus and frames of 16384 and 70000 bytes written by framer and codecs with limits that fit or not, on a transport that takes all, bytewise, waits or fails, with nobody listening and at each of 5 levels: the same bytes, results and flushes"), |c| {
        let mode = MODES[c.choose(3)];
        let mut fs = corpus();
        fs.extend([sized(16384), sized(70000), Frame::Unset]);
        let f = fs[c.choose(n)].clone();
        let level = 1 + c.choose(5) as u8;
        let how = c.choose(4);
        c.note(|| format!("{mode:?}, level {level}, transport {how}, {f:?}"));
        let one = |max: usize| -> String {
            let (io, peer) = pipe();
            let mut k = 0;
            peer.0.borrow_mut().on_write = Some(Box::new(move |n| {
                k += 1;
                match how {
                    0 => WriteAns::Take(n),
                    1 => WriteAns::Take(1),
                    2 if k % 2 == 1 => WriteAns::Wait,
                    2 => WriteAns::Take(n.min(13)),
                    _ if k > 1 => WriteAns::Fail(ErrorKind::BrokenPipe),
                    _ => WriteAns::Take(n.min(7)),
                }
            }));
            let mut w = Reader::new(mode, io, max);
            let mut out = String::new();
            for _ in 0..2 {
                let mut t = Task::new(tokio::task::unconstrained(w.write(f.clone())));
                match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| t.run())) {
                    Err(_) => return out + "panic: " + &verif_sched::take_panic().unwrap_or_default(),
                    Ok(st) => out += &format!("{st:?} {:?}; ", t.out.take()),
                }
            }
            // the order of capabilities is open
            let p = peer.0.borrow();
            let bytes: Vec<String> = if mode_has_sets(&f) { vec![p.out.len().to_string()] } else { vec![format!("{:02x?}", p.out)] };
            out + &format!("{bytes:?} flushed {}", p.flushed)
        };
        let len = wire::body(&f).len();
        for max in [16384, 80000, len, len.saturating_sub(1), 300] {
            let a = trace::silently(|| one(max));
            let b = trace::at(level, || one(max));
            ensure!(a == b, "writing {} ({mode:?}, limit {max}) gives {}, listened to at level {level} {}", brief(&Ok(f.clone())), &a[..a.len().min(300)], &b[..b.len().min(300)]);
        }
        c.eval(5);
        c.state(&(mode, level, how, len));
        Ok(())
    });
}
fn mode_has_sets(f: &Frame) -> bool {
    matches!(f, Frame::HaproxyHello(_) | Frame::AgentHello(_))
}
/// The order of capabilities is open.
fn sorted(r: Result<Frame, Error>) -> String {
    match r {
        Ok(Frame::HaproxyHello(mut h)) => {
            h.capabilities.sort_by_key(|c| wire::cap(c));
            format!("{:?}", Frame::HaproxyHello(h))
        }
        Ok(Frame::AgentHello(mut h)) => {
            h.capabilities.sort_by_key(|c| wire::cap(c));
            format!("{:?}", Frame::AgentHello(h))
        }
        r => format!("{r:?}"),
    }
}
