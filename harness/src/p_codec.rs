//! C02-C05: frames <-> bytes.
use crate::alloc;
use crate::engine::*;
use crate::p_varint::{boundaries, check_parse, read, write};
use crate::run::Run;
use crate::wire::{self, Verdict};
use bytes::{Bytes, BytesMut};
use futures::FutureExt;
use haproxy_spoa::spop::{
    Action, AgentAck, AgentHello, Capability, Disconnect, Error, Frame, Framer, HaproxyHello,
    HaproxyNotify, Message, Scope, Typed, Version, MAX_FRAME_SIZE,
};
use std::convert::TryFrom;
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub fn strings() -> Vec<String> {
    let mut v: Vec<String> = ["", "a", "name", "a,b", " x ", "\0", "\r\n\t", "é", "∑", "😀", "\u{7f}\u{80}\u{7ff}\u{800}\u{ffff}\u{10ffff}", "true", "2.0"]
        .iter()
        .map(|s| s.to_string())
        .collect();
    for n in [127, 128, 239, 240, 241, 255, 256, 2287, 2288, 2289] {
        v.push("x".repeat(n));
    }
    v.push("é".repeat(120));
    v
}

pub fn typed_values() -> Vec<Typed> {
    let mut v = vec![Typed::Null, Typed::Boolean(true), Typed::Boolean(false)];
    for n in [0, 1, -1, 127, 128, 239, 240, -240, 2287, 2288, i32::MAX, i32::MIN, i32::MIN + 1] {
        v.push(Typed::Int32(n));
    }
    for n in [0, 1, 239, 240, 2287, 2288, 264431, 264432, i32::MAX as u32, 1 << 31, u32::MAX] {
        v.push(Typed::Uint32(n));
    }
    for n in [0, 1, -1, 240, -241, i32::MIN as i64 - 1, u32::MAX as i64 + 1, i64::MAX, i64::MIN] {
        v.push(Typed::Int64(n));
    }
    for n in [0, 239, 240, 2288, u32::MAX as u64, 1 << 32, 1 << 63, u64::MAX] {
        v.push(Typed::Uint64(n));
    }
    for a in [[0, 0, 0, 0], [1, 2, 3, 4], [255, 255, 255, 255], [127, 0, 0, 1]] {
        v.push(Typed::Ipv4(a.into()));
    }
    for a in [[0u8; 16], [255; 16], [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15], [0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 255, 255, 1, 2, 3, 4]] {
        v.push(Typed::Ipv6(a.into()));
    }
    for s in strings() {
        v.push(Typed::String(s));
    }
    v.push(Typed::Binary(Bytes::new()));
    v.push(Typed::Binary(vec![0].into()));
    v.push(Typed::Binary((0..=255).collect::<Vec<u8>>().into()));
    for n in [239, 240, 2288] {
        v.push(Typed::Binary(vec![0xFF; n].into()));
    }
    v
}

fn ids() -> Vec<u64> {
    let mut v = vec![0, 1, 2, 123, u32::MAX as u64, 1 << 32];
    for b in boundaries() {
        v.push(b);
        v.push(b.wrapping_sub(1));
    }
    v.sort_unstable();
    v.dedup();
    v
}

fn cap_lists() -> Vec<Vec<Capability>> {
    let mut v = vec![vec![]];
    let mut last = v.clone();
    for _ in 0..3 {
        let mut n = vec![];
        for l in &last {
            for c in wire::CAPS {
                let mut x: Vec<Capability> = l.clone();
                x.push(c);
                n.push(x);
            }
        }
        v.extend(n.clone());
        last = n;
    }
    v
}

fn version_lists() -> Vec<Vec<Version>> {
    let a = [Version::new(2, 0), Version::new(1, 0), Version::new(0, 0), Version::new(2, 10), Version::new(255, 255)];
    let mut v = vec![];
    for x in a {
        v.push(vec![x]);
        for y in a {
            v.push(vec![x, y]);
            for z in a {
                v.push(vec![x, y, z]);
            }
        }
    }
    v
}

const SIZES: [u32; 7] = [0, 1, 255, 256, 16380, 16384, u32::MAX];

pub fn notify(frag: bool, s: u64, f: u64, messages: Vec<Message>) -> Frame {
    Frame::HaproxyNotify(HaproxyNotify { fragmented: frag, stream_id: s, frame_id: f, messages })
}
pub fn ack(frag: bool, ab: bool, s: u64, f: u64, actions: Vec<Action>) -> Frame {
    Frame::AgentAck(AgentAck { fragmented: frag, aborted: ab, stream_id: s, frame_id: f, actions })
}
pub fn msg(name: &str, args: &[(&str, Typed)]) -> Message {
    Message { name: name.into(), args: args.iter().map(|(k, v)| (k.to_string(), v.clone())).collect() }
}

/// Runs `f` on every frame of the alphabets.
fn frames<F>(r: &mut Run, f: F)
where
    F: Fn(&Frame) -> Res + Sync,
{
    let tv = typed_values();
    r.go(cfg("typed", "every pair of typed values in neighbouring arguments and actions, with every scope"), |c| {
        let a = c.of(&tv).clone();
        for b in &tv {
            f(&notify(false, 1, 1, vec![msg("m", &[("k", a.clone()), ("l", b.clone())]), msg("n", &[("", b.clone())])]))?;
            for s in wire::SCOPES {
                f(&ack(false, false, 1, 1, vec![
                    Action::SetVar { scope: s, name: "v".into(), value: a.clone() },
                    Action::SetVar { scope: Scope::Session, name: "".into(), value: b.clone() },
                    Action::UnsetVar { scope: s, name: "u".into() },
                ]))?;
            }
        }
        c.eval(6 * tv.len() as u64);
        c.state(&format!("{a:?}"));
        c.note(|| format!("{a:?} next to every other value"));
        Ok(())
    });
    let ss = strings();
    r.go(cfg("strings", "every string of the alphabet in every place that holds one"), |c| {
        let s = c.of(&ss).clone();
        for t in &ss {
            f(&notify(true, 0, 9, vec![
                Message { name: s.clone(), args: vec![(t.clone(), Typed::Null), (s.clone(), Typed::String(t.clone()))] },
                Message { name: t.clone(), args: vec![] },
            ]))?;
            f(&ack(true, true, 0, 9, vec![
                Action::UnsetVar { scope: Scope::Process, name: s.clone() },
                Action::SetVar { scope: Scope::Response, name: t.clone(), value: Typed::Binary(s.clone().into_bytes().into()) },
            ]))?;
        }
        for e in [Some(s.clone()), None] {
            f(&Frame::HaproxyHello(HaproxyHello {
                supported_versions: vec![Version::V2_0],
                max_frame_size: 16380,
                capabilities: vec![],
                healthcheck: None,
                engine_id: e,
            }))?;
        }
        for code in [0u32, 1, 5, 14, 15, 98, 99, 100, 239, 240, 2288, 1 << 31, u32::MAX] {
            f(&Frame::HaproxyDisconnect(Disconnect { status_code: code, message: s.clone() }))?;
            f(&Frame::AgentDisconnect(Disconnect { status_code: code, message: s.clone() }))?;
        }
        c.eval(2 * ss.len() as u64 + 28);
        c.state(&s);
        Ok(())
    });
    let lens: Vec<usize> = if r.thorough() {
        (1..=18).flat_map(|k| [(1 << k) - 1, 1 << k, (1 << k) + 1]).chain([264_431, 264_432, 264_433, 300_001, 1 << 19]).chain(100..9000).collect()
    } else {
        let l = vec![4095, 4096, 16_383, 16_384, 16_385, 65_535, 65_536, 65_537, 131_072, 264_431, 264_432];
        l.into_iter().chain(100..2600).collect()
    };
    r.go(cfg("long", "strings and binaries of every length from 100 to 2599 (thorough: 8999) and of boundary lengths up to 264432 (thorough: 2^19) bytes, of one- or three-byte letters, in every place that holds one, with short ones around"), |c| {
        let n = *c.of(&lens);
        let wide = c.flag();
        let (a, tail) = if wide { ("日", "é") } else { ("b", "") };
        let mut t: String = a.repeat(n / a.len());
        t.push_str(&"ab"[..n - t.len()]);
        t.push_str(tail);
        let k = c.choose(8);
        let x = || t.clone();
        let hello = |e: String| Frame::HaproxyHello(HaproxyHello { supported_versions: vec![Version::V2_0], max_frame_size: 16380, capabilities: vec![], healthcheck: Some(false), engine_id: Some(e) });
        let fr = match k {
            0 => notify(false, 1, 2, vec![msg("m", &[("k", Typed::Null)]), msg(&x(), &[("k", Typed::Boolean(true))]), msg("n", &[])]),
            1 => notify(false, 1, 2, vec![msg("m", &[("j", Typed::Uint32(7)), (&x(), Typed::String("v".into())), ("l", Typed::Null)])]),
            2 => notify(false, 1, 2, vec![msg("m", &[("j", Typed::Uint32(7)), ("k", Typed::String(x())), ("l", Typed::Int64(-1))]), msg("n", &[])]),
            3 => notify(false, 1, 2, vec![msg("m", &[("j", Typed::Uint32(7)), ("k", Typed::Binary(x().into_bytes().into())), ("l", Typed::Int64(-1))]), msg("n", &[])]),
            4 => ack(false, false, 1, 2, vec![
                Action::SetVar { scope: Scope::Request, name: x(), value: Typed::String("v".into()) },
                Action::UnsetVar { scope: Scope::Process, name: "u".into() },
                Action::UnsetVar { scope: Scope::Process, name: x() },
                Action::UnsetVar { scope: Scope::Process, name: "u".into() },
            ]),
            5 => ack(false, false, 1, 2, vec![
                Action::SetVar { scope: Scope::Request, name: "n".into(), value: Typed::String(x()) },
                Action::SetVar { scope: Scope::Session, name: "n".into(), value: Typed::Binary(x().into_bytes().into()) },
                Action::UnsetVar { scope: Scope::Process, name: "u".into() },
            ]),
            6 => hello(x()),
            _ => {
                f(&Frame::HaproxyDisconnect(Disconnect { status_code: 99, message: x() }))?;
                Frame::AgentDisconnect(Disconnect { status_code: 99, message: x() })
            }
        };
        f(&fr)?;
        c.eval(1);
        c.state(&(n, wide, k));
        Ok(())
    });
    let idv = ids();
    r.go(cfg("ids", "every pair of boundary ids with every flag combination"), |c| {
        let s = *c.of(&idv);
        let fl = c.choose(4);
        for i in &idv {
            if *i == 0 {
                continue;
            }
            f(&notify(fl & 1 != 0, s, *i, vec![msg("m", &[])]))?;
            f(&ack(fl & 1 != 0, fl & 2 != 0, s, *i, vec![]))?;
        }
        c.eval(2 * idv.len() as u64);
        c.state(&(s, fl));
        Ok(())
    });
    let (vl, cl) = (version_lists(), cap_lists());
    r.go(cfg("hello", "every hello over the alphabets of versions (lists up to 3), sizes, capability lists up to 3, health check and engine id"), |c| {
        let v = c.of(&vl).clone();
        let m = *c.of(&SIZES);
        for caps in &cl {
            for h in [None, Some(true), Some(false)] {
                for e in [None, Some(""), Some("engine"), Some("é,2.0")] {
                    f(&Frame::HaproxyHello(HaproxyHello {
                        supported_versions: v.clone(),
                        max_frame_size: m,
                        capabilities: caps.clone(),
                        healthcheck: h,
                        engine_id: e.map(|s| s.to_string()),
                    }))?;
                }
            }
            f(&Frame::AgentHello(AgentHello { version: v[0], max_frame_size: m, capabilities: caps.clone() }))?;
        }
        c.eval(13 * cl.len() as u64);
        c.state(&(format!("{v:?}"), m));
        Ok(())
    });
    r.go(cfg("versions", "every major.minor of 0..255 x 0..255, every frame size of a dense range and the boundaries"), |c| {
        let a = c.choose(256) as u8;
        for b in 0..=255u8 {
            f(&Frame::AgentHello(AgentHello { version: Version::new(a, b), max_frame_size: (a as u32) << 8 | b as u32, capabilities: vec![] }))?;
            f(&Frame::HaproxyHello(HaproxyHello {
                supported_versions: vec![Version::new(b, a), Version::new(a, b)],
                max_frame_size: u32::MAX - ((a as u32) << 8 | b as u32),
                capabilities: vec![Capability::Async],
                healthcheck: Some(b & 1 == 0),
                engine_id: None,
            }))?;
        }
        c.eval(512);
        c.state(&a);
        Ok(())
    });
    r.go(cfg("shapes", "every list of up to 3 messages with 0-3 arguments each, every list of up to 4 actions"), |c| {
        let n = c.choose(4);
        let mut ms = vec![];
        for _ in 0..n {
            let name = *c.of(&["", "m", "check-client-ip"]);
            let k = c.choose(4);
            let v = c.choose(2);
            let args: Vec<(String, Typed)> = (0..k)
                .map(|i| (["ip", "", "ip"][i].to_string(), if (v + i) % 2 == 0 { Typed::String("".into()) } else { Typed::Boolean(true) }))
                .collect();
            ms.push(Message { name: name.into(), args });
        }
        c.state(&format!("{ms:?}"));
        f(&notify(false, 1, 1, ms.clone()))?;
        f(&notify(true, 1, 1, ms))?;
        c.eval(2);
        Ok(())
    });
    r.go(cfg("characters", "every Unicode character, alone, at the start, at the end, inside and twice: in names of messages, arguments and variables, in string values, engine ids and disconnect texts"), |c| {
        let blk = c.choose(0x1100) as u32;
        let mut ms = vec![];
        let mut acts = vec![];
        for ch in (blk << 8..(blk + 1) << 8).filter_map(char::from_u32) {
            for s in [format!("{ch}"), format!("{ch}b"), format!("a{ch}"), format!("a{ch}b"), format!("{ch}{ch}")] {
                ms.push(Message { name: s.clone(), args: vec![(s.clone(), Typed::String(s.clone()))] });
                acts.push(Action::SetVar { scope: Scope::Session, name: s.clone(), value: Typed::String(s) });
            }
            let s = format!("{ch}a{ch}");
            f(&Frame::AgentDisconnect(Disconnect { status_code: 4, message: s.clone() }))?;
            f(&Frame::HaproxyDisconnect(Disconnect { status_code: 4, message: s.clone() }))?;
            f(&Frame::HaproxyHello(HaproxyHello { supported_versions: vec![Version::new(2, 0)], max_frame_size: 16380, capabilities: vec![], healthcheck: None, engine_id: Some(s) }))?;
        }
        c.eval(2 + ms.len() as u64 / 5 * 3);
        f(&notify(false, 1, 1, ms))?;
        f(&ack(false, false, 7, 7, acts))?;
        c.state(&blk);
        Ok(())
    });
    r.go(cfg("actions", "every list of up to 4 actions over both kinds, scopes and two values"), |c| {
        let n = c.choose(5);
        let mut v = vec![];
        for _ in 0..n {
            let k = c.choose(if n > 3 { 4 } else { 9 });
            v.push(match k {
                0 => Action::SetVar { scope: Scope::Session, name: "a".into(), value: Typed::Null },
                1 => Action::UnsetVar { scope: Scope::Session, name: "a".into() },
                2 => Action::SetVar { scope: Scope::Request, name: "".into(), value: Typed::String("é".into()) },
                3 => Action::UnsetVar { scope: Scope::Process, name: "b".into() },
                4 => Action::UnsetVar { scope: Scope::Response, name: "".into() },
                5 => Action::SetVar { scope: Scope::Transaction, name: "a".into(), value: Typed::Int32(-1) },
                6 => Action::SetVar { scope: Scope::Response, name: "c".into(), value: Typed::Boolean(false) },
                7 => Action::UnsetVar { scope: Scope::Transaction, name: "x".into() },
                _ => Action::SetVar { scope: Scope::Process, name: "d".into(), value: Typed::Binary(vec![1, 2, 3].into()) },
            });
        }
        c.state(&format!("{v:?}"));
        f(&ack(false, false, 7, 7, v))?;
        c.eval(1);
        Ok(())
    });
    r.go(cfg("counts", "every argument count 0..=255 and every message and action count up to 300, in every position of three messages"), |c| {
        let n = c.choose(301);
        let pos = c.choose(3);
        let args: Vec<(String, Typed)> = (0..n).map(|i| (format!("k{i}"), if i % 3 == 0 { Typed::Null } else { Typed::Uint32(i as u32) })).collect();
        if n <= 255 {
            let mut ms = vec![msg("x", &[("a", Typed::Null)]), msg("y", &[])];
            ms.insert(pos, Message { name: "big".into(), args });
            f(&notify(false, 1, 1, ms))?;
        }
        if pos == 0 {
            f(&notify(false, 1, 1, (0..n).map(|i| Message { name: format!("m{i}"), args: vec![] }).collect()))?;
            f(&ack(false, false, 1, 1, (0..n).map(|i| Action::UnsetVar { scope: Scope::Session, name: format!("m{i}") }).collect()))?;
        }
        c.eval(1);
        c.state(&(n, pos));
        Ok(())
    });
}

fn short(f: &Frame) -> String {
    let s = format!("{f:?}");
    let mut i = s.len().min(700);
    while !s.is_char_boundary(i) {
        i -= 1;
    }
    s[..i].to_string()
}

const W: usize = 1 << 21;

pub fn c02(r: &mut Run) {
    frames(r, |f| {
        let (b, n) = match write(f, W) {
            Ok(x) => x,
            Err(e) => fail!("writing {} failed: {e}", short(f)),
        };
        ensure!(n == b.len(), "write reported {n} bytes, {} were written: {}", b.len(), short(f));
        match read(&b, W) {
            Ok(g) if g == *f => Ok(()),
            x => Err(Violation(format!("{} was read back as {}", short(f), x.map_or_else(|e| format!("error {e}"), |g| short(&g))))),
        }
    });
    r.go(cfg("refused", "messages with 256..1100 and 65536+-1 arguments, in every position: refused, nothing written; and codecs stay usable"), |c| {
        let n = match c.choose(850) {
            k if k < 845 => 256 + k,
            k => [65535, 65536, 65537, 65536 + 255, 131072][k - 845],
        };
        let pos = c.choose(3);
        let args: Vec<(String, Typed)> = (0..n).map(|_| ("k".to_string(), Typed::Null)).collect();
        let mut ms = vec![msg("x", &[]), msg("y", &[])];
        ms.insert(pos, Message { name: "big".into(), args });
        let f = notify(pos == 1, 1, 1, ms);
        let mut v: Vec<u8> = vec![];
        let fr = Framer::new(1 << 20);
        let x = fr.write_frame(&mut v, f).now_or_never();
        ensure!(matches!(x, Some(Err(_))), "a message with {n} arguments was written: {x:?}");
        ensure!(v.is_empty(), "{} bytes were written of a refused frame", v.len());
        let x = fr.write_frame(&mut v, notify(false, 1, 1, vec![])).now_or_never();
        ensure!(matches!(x, Some(Ok(11))), "the next frame failed: {x:?}");
        c.eval(1);
        c.state(&(n, pos));
        Ok(())
    });
    r.go(cfg("codec", "round trip of a corpus through Codec and BufCodec over one transport, and the reported counts"), |c| {
        use crate::io::pipe;
        use haproxy_spoa::spop::{BufCodec, Codec};
        let fs = corpus();
        let i = c.choose(fs.len());
        let buffered = c.flag();
        let j = c.choose(fs.len());
        let (w, peer) = pipe();
        let (rd, rpeer) = pipe();
        let mut total = 0;
        let two = [fs[i].clone(), fs[j].clone()];
        if buffered {
            let mut cw = BufCodec::buffered(w, Framer::new(W));
            for f in &two {
                total += cw.write_frame(f.clone()).now_or_never().unwrap().map_err(|e| Violation(format!("{e}")))?;
            }
            rpeer.send(&peer.out());
            let mut cr = BufCodec::buffered(rd, Framer::new(W));
            for f in &two {
                let g = cr.read_frame().now_or_never();
                ensure!(g.as_ref() == Some(&Ok(f.clone())), "BufCodec: {} read back as {g:?}", short(f));
            }
        } else {
            let mut cw = Codec::new(w, Framer::new(W));
            for f in &two {
                total += cw.write_frame(f.clone()).now_or_never().unwrap().map_err(|e| Violation(format!("{e}")))?;
            }
            rpeer.send(&peer.out());
            let mut cr = Codec::new(rd, Framer::new(W));
            for f in &two {
                let g = cr.read_frame().now_or_never();
                ensure!(g.as_ref() == Some(&Ok(f.clone())), "Codec: {} read back as {g:?}", short(f));
            }
        }
        ensure!(total == peer.out().len(), "counts sum to {total}, {} bytes written", peer.out().len());
        c.state(&(i, j, buffered));
        c.eval(2);
        Ok(())
    });
    r.go(cfg("values", "constructors and conversions keep values and order"), |c| {
        c.eval(constructors()?);
        c.state(&"values");
        Ok(())
    });
}

/// Values built through the public constructors hold what was given.
fn constructors() -> Result<u64, Violation> {
    let mut n = 0u64;
    macro_rules! same {
        ($a:expr, $b:expr) => {{
            n += 1;
            let (a, b) = ($a, $b);
            ensure!(a == b, "{} gave {:?}, expected {:?}", stringify!($a), a, b);
        }};
    }
    for s in strings() {
        same!(Typed::from(s.as_str()), Typed::String(s.clone()));
        same!(Typed::from(s.clone()), Typed::String(s.clone()));
        same!(String::try_from(Typed::String(s.clone())).ok(), Some(s.clone()));
        let b = s.clone().into_bytes();
        same!(Typed::from(&b[..]), Typed::Binary(b.clone().into()));
        same!(Typed::from(b.clone()), Typed::Binary(b.clone().into()));
        same!(Typed::from(b.clone().into_boxed_slice()), Typed::Binary(b.clone().into()));
        same!(Typed::from(BytesMut::from(&b[..])), Typed::Binary(b.clone().into()));
        same!(Typed::from(Bytes::from(b.clone())), Typed::Binary(b.clone().into()));
        same!(Bytes::try_from(Typed::Binary(b.clone().into())).ok(), Some(Bytes::from(b)));
        same!(Message::builder(s.clone()).build(), Message { name: s.clone(), args: vec![] });
        for sc in wire::SCOPES {
            same!(Action::set_var(sc, s.clone(), s.as_str()), Action::SetVar { scope: sc, name: s.clone(), value: Typed::String(s.clone()) });
            same!(Action::unset_var(sc, s.clone()), Action::UnsetVar { scope: sc, name: s.clone() });
        }
        same!(
            Frame::haproxy_disconnect(Error::Timeout, s.clone()),
            Frame::HaproxyDisconnect(Disconnect { status_code: 2, message: s.clone() })
        );
        same!(
            Frame::agent_disconnect(Error::Unknown, s.clone()),
            Frame::AgentDisconnect(Disconnect { status_code: 99, message: s.clone() })
        );
    }
    same!(Typed::from(()), Typed::Null);
    for b in [true, false] {
        same!(Typed::from(b), Typed::Boolean(b));
        same!(bool::try_from(Typed::Boolean(b)).ok(), Some(b));
    }
    for v in boundaries() {
        for v in [v, v.wrapping_sub(1), v.wrapping_add(1), !v] {
            same!(Typed::from(v), Typed::Uint64(v));
            same!(Typed::from(v as i64), Typed::Int64(v as i64));
            same!(Typed::from(v as u32), Typed::Uint32(v as u32));
            same!(Typed::from(v as i32), Typed::Int32(v as i32));
            same!(u64::try_from(Typed::Uint64(v)).ok(), Some(v));
            same!(i64::try_from(Typed::Int64(v as i64)).ok(), Some(v as i64));
            same!(u32::try_from(Typed::Uint32(v as u32)).ok(), Some(v as u32));
            same!(i32::try_from(Typed::Int32(v as i32)).ok(), Some(v as i32));
            let a4 = Ipv4Addr::from(v as u32);
            let a6 = Ipv6Addr::from((v as u128) << 64 | !v as u128);
            same!(Typed::from(a4), Typed::Ipv4(a4));
            same!(Typed::from(a6), Typed::Ipv6(a6));
            same!(Typed::from(IpAddr::V4(a4)), Typed::Ipv4(a4));
            same!(Typed::from(IpAddr::V6(a6)), Typed::Ipv6(a6));
            same!(Ipv4Addr::try_from(Typed::Ipv4(a4)).ok(), Some(a4));
            same!(Ipv6Addr::try_from(Typed::Ipv6(a6)).ok(), Some(a6));
            same!(
                Frame::notify(v, !v, [msg("a", &[]), msg("b", &[])]),
                notify(false, v, !v, vec![msg("a", &[]), msg("b", &[])])
            );
            same!(
                Frame::ack(v, !v, [Action::unset_var(Scope::Session, "a"), Action::unset_var(Scope::Request, "b")]),
                ack(false, false, v, !v, vec![Action::unset_var(Scope::Session, "a"), Action::unset_var(Scope::Request, "b")])
            );
            same!(AgentAck::new(v, !v), AgentAck { fragmented: false, aborted: false, stream_id: v, frame_id: !v, actions: vec![] });
        }
    }
    // an IPv4-mapped IPv6 address stays an IPv6 address
    let m = Ipv4Addr::new(1, 2, 3, 4).to_ipv6_mapped();
    same!(Typed::from(IpAddr::V6(m)), Typed::Ipv6(m));
    // a value of another kind does not convert
    for t in typed_values() {
        same!(bool::try_from(t.clone()).is_ok(), matches!(t, Typed::Boolean(_)));
        same!(i32::try_from(t.clone()).is_ok(), matches!(t, Typed::Int32(_)));
        same!(u32::try_from(t.clone()).is_ok(), matches!(t, Typed::Uint32(_)));
        same!(i64::try_from(t.clone()).is_ok(), matches!(t, Typed::Int64(_)));
        same!(u64::try_from(t.clone()).is_ok(), matches!(t, Typed::Uint64(_)));
        same!(Ipv4Addr::try_from(t.clone()).is_ok(), matches!(t, Typed::Ipv4(_)));
        same!(Ipv6Addr::try_from(t.clone()).is_ok(), matches!(t, Typed::Ipv6(_)));
        same!(String::try_from(t.clone()).is_ok(), matches!(t, Typed::String(_)));
        same!(Bytes::try_from(t.clone()).is_ok(), matches!(t, Typed::Binary(_)));
        same!(
            Message::builder("m").arg("a", t.clone()).arg("b", 1u32).args([("c", t.clone()), ("a", Typed::Null)]).arg("d", ()).build(),
            msg("m", &[("a", t.clone()), ("b", Typed::Uint32(1)), ("c", t.clone()), ("a", Typed::Null), ("d", Typed::Null)])
        );
        same!(
            Message::new("m", [("a", t.clone()), ("b", Typed::Null), ("a", t.clone())]),
            msg("m", &[("a", t.clone()), ("b", Typed::Null), ("a", t.clone())])
        );
    }
    for a in 0..=255u8 {
        for b in [0, 1, 255 - a] {
            let v = Version::new(a, b);
            same!((v.major, v.minor), (a, b));
            same!(v.to_string(), format!("{a}.{b}"));
            same!(v.to_string().parse::<Version>().ok(), Some(v));
        }
    }
    same!(Version::V2_0, Version { major: 2, minor: 0 });
    same!(Version::default(), Version { major: 2, minor: 0 });
    for c in wire::CAPS {
        same!(c.to_string(), wire::cap(&c).to_string());
        same!(wire::cap(&c).parse::<Capability>().ok(), Some(c));
    }
    same!(MAX_FRAME_SIZE, 16384);
    for f in corpus() {
        same!(f.frame_type() as u8, wire::type_code(&f));
        match &f {
            Frame::HaproxyNotify(x) => {
                let m = f.metadata().unwrap();
                same!((m.stream_id, m.frame_id, m.fragmented(), m.is_final(), m.aborted()), (x.stream_id, x.frame_id, x.fragmented, !x.fragmented, false));
            }
            Frame::AgentAck(x) => {
                let m = f.metadata().unwrap();
                same!((m.stream_id, m.frame_id, m.fragmented(), m.is_final(), m.aborted()), (x.stream_id, x.frame_id, x.fragmented, !x.fragmented, x.aborted));
            }
            _ => {}
        }
    }
    Ok(n)
}

/// One frame of every kind and feature.
pub fn corpus() -> Vec<Frame> {
    let s = Scope::Session;
    vec![
        Frame::HaproxyHello(HaproxyHello { supported_versions: vec![Version::V2_0], max_frame_size: 16380, capabilities: vec![Capability::Pipelining, Capability::Async], healthcheck: None, engine_id: Some("e1".into()) }),
        Frame::HaproxyHello(HaproxyHello { supported_versions: vec![Version::new(1, 0), Version::V2_0], max_frame_size: 256, capabilities: wire::CAPS.to_vec(), healthcheck: Some(true), engine_id: None }),
        Frame::AgentHello(AgentHello { version: Version::V2_0, max_frame_size: 16384, capabilities: vec![Capability::Fragmentation] }),
        Frame::HaproxyDisconnect(Disconnect { status_code: 0, message: "normal".into() }),
        Frame::AgentDisconnect(Disconnect { status_code: 99, message: "é".into() }),
        notify(false, 0, 1, vec![]),
        notify(true, 300, 5, vec![msg("m", &[])]),
        notify(false, 1 << 40, 240, vec![
            msg("check", &[("ip", Typed::Ipv4([1, 2, 3, 4].into())), ("n", Typed::Int32(-5))]),
            msg("", &[("", Typed::Null)]),
        ]),
        notify(false, 3, 4, vec![msg("t", &[
            ("a", Typed::Boolean(true)),
            ("b", Typed::Uint32(4000)),
            ("c", Typed::Int64(-1)),
            ("d", Typed::Uint64(7)),
            ("e", Typed::Ipv6([9; 16].into())),
            ("f", Typed::String("héllo".into())),
            ("g", Typed::Binary(vec![0, 255].into())),
        ])]),
        ack(false, false, 1, 1, vec![]),
        ack(true, false, 2, 300, vec![Action::UnsetVar { scope: Scope::Process, name: "x".into() }]),
        ack(false, true, 1, 1, vec![
            Action::SetVar { scope: s, name: "score".into(), value: Typed::Int32(50) },
            Action::SetVar { scope: Scope::Response, name: "s".into(), value: Typed::String("v".into()) },
            Action::UnsetVar { scope: Scope::Transaction, name: "old".into() },
            Action::SetVar { scope: Scope::Request, name: "".into(), value: Typed::Null },
        ]),
    ]
}

pub fn c03(r: &mut Run) {
    frames(r, |f| {
        let want = wire::wire(f);
        let (b, _) = match write(f, W) {
            Ok(x) => x,
            Err(e) => fail!("writing {} failed: {e}", short(f)),
        };
        if b != want {
            let i = b.iter().zip(&want).position(|(x, y)| x != y).unwrap_or(b.len().min(want.len()));
            fail!("{}: byte {i} is {:02x?}, SPOP has {:02x?} ({} bytes, SPOP has {})", short(f), b.get(i), want.get(i), b.len(), want.len());
        }
        match read(&want, W) {
            Ok(g) if g == *f => Ok(()),
            x => Err(Violation(format!("the SPOP encoding of {} was read as {}", short(f), x.map_or_else(|e| format!("error {e}"), |g| short(&g))))),
        }
    });
    foreign(r);
}

fn expect(b: &[u8], f: Frame, what: &dyn Fn() -> String) -> Res {
    let v = wire::parse(b);
    if v != Verdict::Frame(f.clone()) {
        fail!("machinery: the reference parser says {v:?} for {} ({b:02x?})", what());
    }
    match read(&wire::with_len(b), W) {
        Ok(g) if g == f => Ok(()),
        x => Err(Violation(format!("{}: must mean {}, was read as {}", what(), short(&f), x.map_or_else(|e| format!("error {e}"), |g| short(&g))))),
    }
}

fn ints(v: u32) -> Vec<Typed> {
    let mut o = vec![Typed::Uint32(v), Typed::Int64(v as i64), Typed::Uint64(v as u64)];
    if v <= i32::MAX as u32 {
        o.push(Typed::Int32(v as i32));
    }
    o
}

/// Keys that SPOP does not define, many of them almost like one it does.
fn unknown_keys() -> Vec<String> {
    let known = ["supported-versions", "version", "max-frame-size", "capabilities", "engine-id", "healthcheck", "status-code", "message"];
    let mut v: Vec<String> = ["", "x", "x-unknown", "versions", "supported-version", "frame-size", "health-check", "\u{0}", "é", " ", "-"].map(String::from).to_vec();
    for k in known {
        let n = k.len();
        let cap: String = k.split('-').map(|w| w[..1].to_uppercase() + &w[1..]).collect::<Vec<_>>().join("-");
        v.extend([k.to_uppercase(), cap, k[1..].into(), k[..n - 1].into(), format!("{k}s"), format!("x-{k}"), format!("{k}-x"), format!("{k} "), format!(" {k}"), format!("{k}\0"), format!("{k}:"), k.replace('-', "_"), k.replace('-', ""), k.replace('-', " "), format!("{k},{k}"), format!("haproxy-{k}"), format!("agent-{k}"), format!("spop.{k}"), k[..n / 2].into(), k.chars().rev().collect()]);
    }
    v.retain(|k| !known.contains(&k.as_str()));
    v.sort();
    v.dedup();
    v
}

/// Legal encodings other implementations may choose.
fn foreign(r: &mut Run) {
    let tv = typed_values();
    r.go(cfg("order", "every order of every subset of hello items that holds the mandatory ones, every integer type of the frame size, for both hellos and disconnects"), |c| {
        // 0: hhello, 1: ahello, 2: hdisc, 3: adisc
        let kind = c.choose(4);
        let v = *c.of(&[0u32, 239, 240, 16380, i32::MAX as u32, 1 << 31, u32::MAX]);
        let it = ints(v);
        let num = c.of(&it).clone();
        let mut items: Vec<Vec<u8>> = vec![];
        let f;
        let mut hc = None;
        let mut eng = None;
        match kind {
            0 => {
                items.push(wire::kv("supported-versions", &Typed::String("1.0,2.0".into())));
                items.push(wire::kv("max-frame-size", &num));
                items.push(wire::kv("capabilities", &Typed::String("pipelining,async".into())));
                match c.choose(3) {
                    0 => {}
                    k => {
                        hc = Some(k == 1);
                        items.push(wire::kv("healthcheck", &Typed::Boolean(k == 1)));
                    }
                }
                if c.flag() {
                    eng = Some("id".to_string());
                    items.push(wire::kv("engine-id", &Typed::String("id".into())));
                }
                f = Frame::HaproxyHello(HaproxyHello {
                    supported_versions: vec![Version::new(1, 0), Version::V2_0],
                    max_frame_size: v,
                    capabilities: vec![Capability::Pipelining, Capability::Async],
                    healthcheck: hc,
                    engine_id: eng,
                });
            }
            1 => {
                items.push(wire::kv("version", &Typed::String("2.0".into())));
                items.push(wire::kv("max-frame-size", &num));
                items.push(wire::kv("capabilities", &Typed::String("fragmentation".into())));
                f = Frame::AgentHello(AgentHello { version: Version::V2_0, max_frame_size: v, capabilities: vec![Capability::Fragmentation] });
            }
            k => {
                items.push(wire::kv("status-code", &num));
                items.push(wire::kv("message", &Typed::String("bye".into())));
                let d = Disconnect { status_code: v, message: "bye".into() };
                f = if k == 2 { Frame::HaproxyDisconnect(d) } else { Frame::AgentDisconnect(d) };
            }
        }
        let mut b = wire::head(wire::type_code(&f), wire::FIN, 0, 0);
        while !items.is_empty() {
            let i = c.choose(items.len());
            b.extend(items.remove(i));
        }
        c.eval(1);
        c.state(&b);
        expect(&b, f, &|| format!("items in another order: {b:02x?}"))
    });
    r.go(cfg("unknown", "an unknown item with every typed value and several keys at every position of both hellos and both disconnects"), |c| {
        let fs: Vec<Frame> = corpus().into_iter().filter(|f| matches!(f, Frame::HaproxyHello(_) | Frame::AgentHello(_) | Frame::HaproxyDisconnect(_) | Frame::AgentDisconnect(_))).collect();
        let f = c.of(&fs).clone();
        let t = c.of(&tv).clone();
        let items = items_of(&f);
        for key in unknown_keys() {
            let key = key.as_str();
            for pos in 0..=items.len() {
                let mut b = wire::head(wire::type_code(&f), wire::FIN, 0, 0);
                for (i, it) in items.iter().enumerate() {
                    if i == pos {
                        b.extend(wire::kv(key, &t));
                    }
                    b.extend(it);
                }
                if pos == items.len() {
                    b.extend(wire::kv(key, &t));
                }
                expect(&b, f.clone(), &|| format!("unknown item {key:?} {t:?} at {pos}"))?;
                c.eval(1);
            }
        }
        c.state(&format!("{f:?}{t:?}"));
        Ok(())
    });
    r.go(cfg("lists", "every version list and capability list up to 3 elements with every pattern of blanks, and unknown, empty and repeated capabilities"), |c| {
        let vs = ["2.0", "1.0", "3.14"];
        let cs = ["pipelining", "async", "fragmentation", "gzip", "", "Async"];
        let blanks = ["", " ", "  ", "\t"];
        let agent = c.flag();
        let vary_versions = !agent && c.flag();
        let n = if vary_versions { 1 + c.choose(3) } else { 1 };
        let m = if vary_versions { c.choose(2) } else { c.choose(4) };
        let mut vt = String::new();
        let mut versions = vec![];
        for i in 0..n {
            let k = if i == 0 { c.choose(3) } else { (i + versions.len()) % 3 };
            let (a, b) = if vary_versions { (*c.of(&blanks), *c.of(&blanks)) } else { ("", "") };
            if i > 0 {
                vt.push(',');
            }
            vt += a;
            vt += vs[k];
            vt += b;
            versions.push([Version::V2_0, Version::new(1, 0), Version::new(3, 14)][k]);
        }
        let mut ct = String::new();
        let mut caps = vec![];
        for i in 0..m {
            let k = c.choose(6);
            let bl = *c.of(&["", " ", "\t "]);
            if i > 0 {
                ct.push(',');
            }
            ct += bl;
            ct += cs[k];
            ct += bl;
            if let Some(x) = [Some(Capability::Pipelining), Some(Capability::Async), Some(Capability::Fragmentation), None, None, None][k] {
                caps.push(x);
            }
        }
        c.state(&(vt.clone(), ct.clone(), agent));
        let (f, key) = if agent {
            (Frame::AgentHello(AgentHello { version: versions[0], max_frame_size: 1000, capabilities: caps }), "version")
        } else {
            (Frame::HaproxyHello(HaproxyHello { supported_versions: versions, max_frame_size: 1000, capabilities: caps, healthcheck: None, engine_id: None }), "supported-versions")
        };
        let mut b = wire::head(wire::type_code(&f), wire::FIN, 0, 0);
        b.extend(wire::kv(key, &Typed::String(vt.clone())));
        b.extend(wire::kv("max-frame-size", &Typed::Uint32(1000)));
        b.extend(wire::kv("capabilities", &Typed::String(ct.clone())));
        c.eval(1);
        expect(&b, f, &|| format!("versions {vt:?} capabilities {ct:?}"))
    });
    r.go(cfg("long lists", "version and capability lists and hellos with 4 to 1000 elements: repeated, different, unknown or empty ones, or unknown items, and one more at the start, in the middle or at the end"), |c| {
        let n = *c.of(&[4usize, 5, 8, 9, 15, 16, 17, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000]);
        let at = [0, n / 2, n][c.choose(3)];
        let kind = c.choose(7);
        let agent = kind >= 2 && c.flag();
        c.note(|| format!("{n} elements of kind {kind}, one more at {at}, agent {agent}"));
        let mut versions = vec![Version::V2_0];
        let mut caps = vec![];
        let mut text = None;
        let mut items = 0;
        match kind {
            0 | 1 => {
                versions = (0..n).map(|i| if kind == 0 { Version::new(1, 0) } else { Version::new(7, i as u8) }).collect();
                versions.insert(at, Version::V2_0);
            }
            2 => {
                caps = vec![Capability::Async; n];
                caps.insert(at, Capability::Fragmentation);
            }
            3..=5 => {
                let mut l: Vec<String> = (0..n).map(|i| if kind == 3 { format!("x{i}") } else if kind == 4 { "x".to_string() } else { String::new() }).collect();
                l.insert(at, "fragmentation".into());
                caps = vec![Capability::Fragmentation];
                text = Some(l.join(","));
            }
            _ => {
                items = n;
                caps = vec![Capability::Fragmentation];
            }
        }
        let f = if agent {
            Frame::AgentHello(AgentHello { version: versions[0], max_frame_size: 1000, capabilities: caps.clone() })
        } else {
            Frame::HaproxyHello(HaproxyHello { supported_versions: versions.clone(), max_frame_size: 1000, capabilities: caps.clone(), healthcheck: None, engine_id: None })
        };
        let mut b = wire::head(wire::type_code(&f), wire::FIN, 0, 0);
        let kvs = [
            wire::kv(if agent { "version" } else { "supported-versions" }, &wire::versions(&versions)),
            wire::kv("max-frame-size", &Typed::Uint32(1000)),
            wire::kv("capabilities", &text.clone().map(Typed::String).unwrap_or_else(|| wire::caps(&caps))),
        ];
        let place = if items == 0 { 3 } else { [0, 1, 3][if at == 0 { 0 } else if at == n { 2 } else { 1 }] };
        for (i, kv) in kvs.iter().enumerate() {
            if i == place {
                (0..items).for_each(|k| b.extend(wire::kv(&format!("x-{k}"), &Typed::Uint32(k as u32))));
            }
            b.extend(kv);
        }
        if place == 3 {
            (0..items).for_each(|k| b.extend(wire::kv(&format!("x-{k}"), &Typed::Uint32(k as u32))));
        }
        c.eval(1);
        c.state(&b);
        expect(&b, f, &|| format!("{n} elements of kind {kind}, one more at {at}"))
    });
    r.go(cfg("separators", "two or three capabilities or versions with something else than a comma between them (every ASCII character that may occur in a text but in no element, and three others): capabilities are unknown ones, versions never two"), |c| {
        let seps: Vec<char> = (0u8..128).map(char::from).filter(|x| !x.is_ascii_alphanumeric() && *x != ',').chain(['、', '\u{a0}', '，']).collect();
        let sep = *c.of(&seps);
        let three = c.flag();
        let agent = c.flag();
        let caps = c.flag();
        let (x, y) = if caps { ("pipelining", "async") } else { ("2.0", "1.0") };
        let mut t = format!("{x}{sep}{y}");
        let known = three && caps;
        if three {
            t += if caps { ", fragmentation" } else { ", 3.14" };
        }
        let (ct, vt) = if caps { (t.as_str(), "2.0") } else { ("", t.as_str()) };
        let typ = if agent { wire::T_AHELLO } else { wire::T_HHELLO };
        let mut b = wire::head(typ, wire::FIN, 0, 0);
        b.extend(wire::kv(if agent { "version" } else { "supported-versions" }, &Typed::String(vt.into())));
        b.extend(wire::kv("max-frame-size", &Typed::Uint32(1000)));
        b.extend(wire::kv("capabilities", &Typed::String(ct.into())));
        c.eval(1);
        c.state(&b);
        c.note(|| format!("versions {vt:?} capabilities {ct:?}"));
        let got = read(&wire::with_len(&b), W);
        if caps {
            let want = if known { vec![Capability::Fragmentation] } else { vec![] };
            let has = match &got {
                Ok(Frame::AgentHello(h)) => h.capabilities.clone(),
                Ok(Frame::HaproxyHello(h)) => h.capabilities.clone(),
                x => fail!("a hello with capabilities {ct:?} was read as {x:?}"),
            };
            ensure!(has == want, "capabilities {ct:?} were read as {has:?}");
        } else if let Ok(Frame::HaproxyHello(h)) = &got {
            // whether the whole hello or only what is no version is refused is left open
            for bad in [Version::V2_0, Version::new(1, 0)] {
                ensure!(!h.supported_versions.contains(&bad), "versions {vt:?} were read as {:?}", h.supported_versions);
            }
        }
        Ok(())
    });
    r.go(cfg("sizes", "a frame size beyond 32 bits never becomes a smaller one"), |c| {
        let t = *c.of(&[1u64 << 32, (1 << 32) + 256, (1 << 33) + 16380, 1 << 62, u64::MAX, u64::MAX - 100]);
        let hh = c.flag();
        let typ = c.flag();
        let val = if typ { Typed::Uint64(t) } else { Typed::Int64((t >> 1) as i64) };
        let mut b = wire::head(if hh { wire::T_HHELLO } else { wire::T_AHELLO }, wire::FIN, 0, 0);
        b.extend(wire::kv(if hh { "supported-versions" } else { "version" }, &Typed::String("2.0".into())));
        b.extend(wire::kv("max-frame-size", &val));
        b.extend(wire::kv("capabilities", &Typed::String("".into())));
        c.eval(1);
        c.state(&b);
        check_parse("hello with a huge frame size", &b)
    });
}

/// The key/value items of a hello or disconnect as the reference encodes them.
fn items_of(f: &Frame) -> Vec<Vec<u8>> {
    let b = wire::body(f);
    let mut p = 7;
    let mut v = vec![];
    while p < b.len() {
        let s = p;
        let n = wire::get_varint(&b, &mut p).unwrap() as usize;
        p += n;
        let t = b[p];
        p += 1;
        match t & 15 {
            2..=5 => {
                wire::get_varint(&b, &mut p).unwrap();
            }
            8 => {
                let n = wire::get_varint(&b, &mut p).unwrap() as usize;
                p += n;
            }
            _ => {}
        }
        v.push(b[s..p].to_vec());
    }
    v
}

// ---------------------------------------------------------------------------------------------
// C04 / C05: arbitrary bytes

const ALPHA: [u8; 19] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 0x0A, 0x0F, 0x11, b'm', 0x7F, 0x80, 0xEF, 0xF0, 0xFF];

fn heads() -> Vec<Vec<u8>> {
    let mut v = vec![];
    for t in [wire::T_NOTIFY, wire::T_ACK] {
        v.push(wire::head(t, 1, 1, 1));
    }
    v.push(wire::head(wire::T_NOTIFY, 0, 0, 2));
    v.push(wire::head(wire::T_ACK, 3, 0, 2));
    for t in [wire::T_HHELLO, wire::T_AHELLO, wire::T_HDISC, wire::T_ADISC, wire::T_UNSET] {
        v.push(wire::head(t, 1, 0, 0));
    }
    v
}

fn bytes_space<F>(r: &mut Run, f: F)
where
    F: Fn(&[u8]) -> Res + Sync,
{
    let depth = r.q(5usize, 6);
    let hs = heads();
    r.go(cfg("content", "behind every kind of frame header, every content of up to 5 (thorough: 6) bytes over a 19-letter alphabet of lengths, type codes and boundaries"), |c| {
        let h = c.of(&hs).clone();
        let n = c.choose(depth + 1);
        let pre: Vec<u8> = (0..n.min(2)).map(|_| *c.of(&ALPHA)).collect();
        let rest = n - pre.len();
        let mut b = h;
        b.extend(&pre);
        let base = b.len();
        let mut cnt = 0;
        for m in 0..19u32.pow(rest as u32) {
            b.truncate(base);
            let mut m = m;
            for _ in 0..rest {
                b.push(ALPHA[(m % 19) as usize]);
                m /= 19;
            }
            f(&b)?;
            cnt += 1;
        }
        c.eval(cnt);
        c.state(&(b[0], pre, rest));
        Ok(())
    });
    // behind a started message/argument/action the grammar goes deeper
    let inner = r.q(4usize, 5);
    r.go(cfg("nested", "the same behind a started message, argument list, typed argument, action and key/value item"), |c| {
        let starts: [(u8, &[u8]); 12] = [
            (wire::T_NOTIFY, b"\x01m\x01"),
            (wire::T_NOTIFY, b"\x01m\x01\x01k"),
            (wire::T_NOTIFY, b"\x01m\x02\x01k\x00"),
            (wire::T_NOTIFY, b"\x01m\x00\x01n\x01\x01k\x08"),
            (wire::T_NOTIFY, b"\x01m\xff\x01k\x00"),
            (wire::T_ACK, b"\x01\x03"),
            (wire::T_ACK, b"\x01\x03\x01\x01v"),
            (wire::T_ACK, b"\x02\x02\x00\x01v"),
            (wire::T_ACK, b"\x01\x03\x04\x00\x00\x02\x02"),
            (wire::T_HDISC, b"\x0bstatus-code\x03\x00\x07message\x08"),
            (wire::T_ADISC, b"\x07message\x08\x01x\x0bstatus-code\x03"),
            (wire::T_AHELLO, b"\x07version\x08\x032.0\x0ccapabilities\x08\x00\x0emax-frame-size"),
        ];
        let (t, s) = *c.of(&starts);
        let n = c.choose(inner + 1);
        let first = if n > 0 { Some(*c.of(&ALPHA)) } else { None };
        let zero = t != wire::T_NOTIFY && t != wire::T_ACK;
        let mut b = wire::head(t, 1, if zero { 0 } else { 3 }, if zero { 0 } else { 4 });
        b.extend(s);
        b.extend(first);
        let base = b.len();
        let rest = n.saturating_sub(1);
        for m in 0..19u32.pow(rest as u32) {
            b.truncate(base);
            let mut m = m;
            for _ in 0..rest {
                b.push(ALPHA[(m % 19) as usize]);
                m /= 19;
            }
            f(&b)?;
            c.eval(1);
        }
        c.state(&(s, first, rest));
        Ok(())
    });
    r.go(cfg("header", "every frame type byte with every flag bit and pairs of ids, whole and cut at every byte"), |c| {
        let t = c.choose(256) as u8;
        for fl in [0u32, 1, 2, 3, 4, 0x8000_0000, 0x0100_0000, 0xFFFF_FFFF, 0xFFFF_FFFE] {
            for s in [0u64, 1, 240, u64::MAX] {
                for fi in [0u64, 1, 2288, u64::MAX] {
                    let b = wire::head(t, fl, s, fi);
                    for n in 0..=b.len() {
                        f(&b[..n])?;
                        c.eval(1);
                    }
                }
            }
        }
        // the same in front of a proper content
        for x in corpus() {
            let b = wire::body(&x);
            let mut d = vec![t];
            d.extend(&b[1..]);
            f(&d)?;
            for (s, fi) in [(0u64, 0u64), (0, 1), (1, 0), (1, 1), (240, 0)] {
                let mut p = 5;
                wire::get_varint(&b, &mut p);
                wire::get_varint(&b, &mut p);
                for fl in [0u32, 1, 2, 3] {
                    let mut d = wire::head(t, fl, s, fi);
                    d.extend(&b[p..]);
                    f(&d)?;
                    c.eval(1);
                }
            }
        }
        c.state(&t);
        Ok(())
    });
    let base: Vec<Vec<u8>> = corpus().iter().map(wire::body).collect();
    r.go(cfg("mutations", "every corpus frame: every truncation, every single-byte substitution, insertion and deletion, every duplicated or removed slice of up to 8 bytes, stray bytes behind it"), |c| {
        let b = c.of(&base).clone();
        let i = c.choose(b.len() + 1);
        let mut n = 0;
        f(&b[..i])?;
        for v in 0..=255u8 {
            if i < b.len() {
                let mut d = b.clone();
                d[i] = v;
                f(&d)?;
                // and cut right behind it
                f(&d[..=i])?;
            }
            let mut d = b.clone();
            d.insert(i, v);
            f(&d)?;
            n += 3;
        }
        for k in 1..=8 {
            if i + k <= b.len() {
                let mut d = b.clone();
                d.drain(i..i + k);
                f(&d)?;
                let mut d = b.clone();
                let s = b[i..i + k].to_vec();
                for (j, x) in s.into_iter().enumerate() {
                    d.insert(i + j, x);
                }
                f(&d)?;
                n += 2;
            }
        }
        if i == b.len() {
            for o in &base {
                let mut d = b.clone();
                d.extend(&o[7.min(o.len())..]);
                f(&d)?;
                let mut d = b.clone();
                d.extend(o);
                f(&d)?;
                n += 2;
            }
        }
        c.eval(n + 1);
        c.state(&(b, i));
        Ok(())
    });
    let two = [0u8, 1, 2, 3, 8, 9, 0x7F, 0x80, 0xEF, 0xF0, 0xFF];
    let small: Vec<Vec<u8>> = base.iter().filter(|b| b.len() <= r.q(64, 400)).cloned().collect();
    r.go(cfg("pairs", "every pair of substitutions over an 11-letter alphabet in the corpus frames of up to 64 bytes (thorough: all)"), |c| {
        let b = c.of(&small).clone();
        let i = c.choose(b.len());
        let v = *c.of(&two);
        for j in i + 1..b.len() {
            for w in two {
                let mut d = b.clone();
                d[i] = v;
                d[j] = w;
                f(&d)?;
                c.eval(1);
            }
        }
        c.state(&(b, i, v));
        Ok(())
    });
    let tv = typed_values();
    r.go(cfg("items", "hellos and disconnects without each item, with every typed value for each item, with repeated items, and with nonzero ids"), |c| {
        let fs: Vec<Frame> = corpus().into_iter().filter(|f| !matches!(f, Frame::HaproxyNotify(_) | Frame::AgentAck(_))).collect();
        let f0 = c.of(&fs).clone();
        let ty = wire::type_code(&f0);
        let items = items_of(&f0);
        let k = c.choose(items.len());
        let mut n = 0;
        let mk = |s: u64, fi: u64, its: &[Vec<u8>]| {
            let mut b = wire::head(ty, 1, s, fi);
            for i in its {
                b.extend(i);
            }
            b
        };
        // without any subset that lacks k
        for m in 0..1u32 << items.len() {
            if m >> k & 1 == 1 {
                continue;
            }
            let its: Vec<Vec<u8>> = items.iter().enumerate().filter(|(i, _)| m >> i & 1 == 1).map(|(_, x)| x.clone()).collect();
            f(&mk(0, 0, &its))?;
            f(&mk(0, 1, &its))?;
            n += 2;
        }
        for (s, fi) in [(0, 1), (1, 0), (1, 1), (u64::MAX, 0), (0, 1 << 63)] {
            f(&mk(s, fi, &items))?;
            n += 1;
        }
        let mut p = 0;
        let kl = wire::get_varint(&items[k], &mut p).unwrap() as usize;
        let key = items[k][..p + kl].to_vec();
        for t in tv.iter().chain(&[Typed::String("2".into()), Typed::String("x.y".into()), Typed::String(",".into()), Typed::String("2.0,".into()), Typed::String("256.0".into()), Typed::String("-1.0".into()), Typed::String("2.0.0".into())]) {
            let mut it = key.clone();
            it.extend(wire::typed(t));
            let mut its = items.clone();
            its[k] = it.clone();
            f(&mk(0, 0, &its))?;
            its.push(it);
            f(&mk(0, 0, &its))?;
            n += 2;
        }
        c.eval(n);
        c.state(&(format!("{f0:?}"), k));
        Ok(())
    });
    r.go(cfg("lengths", "every place that holds a length with every boundary length up to 2^64-1, with and without bytes behind it"), |c| {
        let mut v: Vec<u64> = boundaries();
        for b in boundaries() {
            v.push(b.wrapping_sub(1));
            v.push(b.wrapping_add(1));
            v.push(b.wrapping_sub(8));
        }
        for i in 0..64 {
            v.push(i);
        }
        v.sort_unstable();
        v.dedup();
        let l = *c.of(&v);
        let tail = *c.of(&[0usize, 1, 2, 16, 64, 300]);
        let places: [(u8, &[u8]); 9] = [
            (wire::T_NOTIFY, b""),
            (wire::T_NOTIFY, b"\x01m\x01"),
            (wire::T_NOTIFY, b"\x01m\x01\x01k\x08"),
            (wire::T_NOTIFY, b"\x01m\x01\x01k\x09"),
            (wire::T_ACK, b"\x01\x03\x00"),
            (wire::T_ACK, b"\x01\x03\x00\x01v\x09"),
            (wire::T_ACK, b"\x02\x02\x00"),
            (wire::T_HDISC, b""),
            (wire::T_ADISC, b"\x07message\x08"),
        ];
        for (t, s) in places {
            let z = t != wire::T_NOTIFY && t != wire::T_ACK;
            let mut b = wire::head(t, 1, 0, if z { 0 } else { 1 });
            b.extend(s);
            b.extend(wire::varint(l));
            b.extend(std::iter::repeat(b'a').take(tail));
            f(&b)?;
            for fill in [0u8, 0xFF] {
                let mut d = b.clone();
                let n = d.len();
                d[n - tail..].fill(fill);
                f(&d)?;
            }
            c.eval(3);
        }
        c.state(&(l, tail));
        Ok(())
    });
    r.go(cfg("utf8", "every 1- and 2-byte string and boundary 3- and 4-byte sequences in every text position"), |c| {
        let a = c.choose(256) as u8;
        let mut seqs: Vec<Vec<u8>> = vec![vec![a]];
        for b in 0..=255u8 {
            seqs.push(vec![a, b]);
        }
        if a >= 0xE0 {
            for b in [0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0] {
                for d in [0x7F, 0x80, 0xBF, 0xC0] {
                    seqs.push(vec![a, b, d]);
                    seqs.push(vec![a, b, d, 0x80]);
                    seqs.push(vec![a, b, d, 0xBF]);
                    seqs.push(vec![a, b, d, b'x']);
                }
            }
        }
        for s in &seqs {
            let t = wire::string(s);
            let mk = |ty: u8, parts: &[&[u8]]| {
                let z = ty != wire::T_NOTIFY && ty != wire::T_ACK;
                let mut b = wire::head(ty, 1, 0, if z { 0 } else { 1 });
                for p in parts {
                    b.extend(*p);
                }
                b
            };
            for b in [
                mk(wire::T_NOTIFY, &[&t, b"\x00"]),
                mk(wire::T_NOTIFY, &[b"\x01m\x01", &t, b"\x00"]),
                mk(wire::T_NOTIFY, &[b"\x01m\x01\x01k\x08", &t]),
                mk(wire::T_NOTIFY, &[b"\x01m\x01\x01k\x09", &t]),
                mk(wire::T_ACK, &[b"\x01\x03\x00", &t, b"\x00"]),
                mk(wire::T_ACK, &[b"\x02\x02\x00", &t]),
                mk(wire::T_ACK, &[b"\x01\x03\x00\x01v\x08", &t]),
                mk(wire::T_ADISC, &[b"\x0bstatus-code\x03\x00\x07message\x08", &t]),
                mk(wire::T_HDISC, &[b"\x0bstatus-code\x03\x00\x07message\x08\x01x", &t, b"\x00"]),
                mk(wire::T_HHELLO, &[b"\x12supported-versions\x08\x032.0\x0emax-frame-size\x03\x10\x0ccapabilities\x08\x00\x09engine-id\x08", &t]),
            ] {
                f(&b)?;
                c.eval(1);
            }
        }
        c.state(&a);
        Ok(())
    });
}

pub fn c05(r: &mut Run) {
    bytes_space(r, |b| check_parse("", b));
}

pub fn c04(r: &mut Run) {
    const MAX: usize = 4096;
    bytes_space(r, |b| safe_read(b, MAX));
    r.go(cfg("declared", "every declared length around the limit and the 32-bit boundaries with sources of every shorter length: an error, no panic, no memory for bytes that are not there"), |c| {
        let max = *c.of(&[0usize, 1, 64, MAX, 16384]);
        let mut ls: Vec<u64> = vec![0, 1, 2, 3, 7, 8, 64, 255, 256, 4096, 1 << 16, 1 << 24, 1 << 31, u32::MAX as u64, u32::MAX as u64 - 3, u32::MAX as u64 - 4];
        for d in 0..3 {
            ls.push(max as u64 + d);
            ls.push((max as u64).saturating_sub(d));
        }
        let l = *c.of(&ls) as u32;
        let have = *c.of(&[0usize, 1, 5, 63, 64, 65, 4095, 4096]);
        let mut s = l.to_be_bytes().to_vec();
        s.extend(std::iter::repeat(3).take(have));
        for cut in (0..4).chain([s.len()]) {
            raw_read(&s[..cut.min(s.len())], max)?;
        }
        c.eval(5);
        c.state(&(max, l, have));
        Ok(())
    });
    let big = r.q(3usize, 4);
    r.go(cfg("raw", "every raw stream of up to 3 (thorough: 4) bytes over all of 0..255 at the start, and dense frames up to the limit"), |c| {
        let a = c.choose(256) as u8;
        for b in 0..=255u8 {
            for d in [0u8, 1, 2, 0x7F, 0x80, 0xFF] {
                raw_read(&[a, b, d], 65536)?;
                raw_read(&[0, 0, 0, 1, a, b, d], 65536)?;
                raw_read(&[0, 0, 0, 2, a, b, d], 65536)?;
                raw_read(&[0, 0, 0, 3, a, b, d], 65536)?;
                c.eval(4);
                if big > 3 {
                    for e in [0u8, 1, 0x80, 0xFF] {
                        raw_read(&[a, b, d, e], 65536)?;
                        raw_read(&[a, b, d, e, 1, 2, 3, 4, 5, 6, 7, 8], 65536)?;
                    }
                }
            }
        }
        // frames filled to the limit with one byte value
        for ty in [wire::T_NOTIFY, wire::T_ACK, wire::T_HHELLO, wire::T_HDISC] {
            for n in [100usize, MAX - 8] {
                let z = ty == wire::T_HHELLO || ty == wire::T_HDISC;
                let mut f = wire::head(ty, 1, 0, if z { 0 } else { 1 });
                f.extend(std::iter::repeat(a).take(n));
                safe_read(&f, MAX)?;
                c.eval(1);
            }
        }
        c.state(&a);
        Ok(())
    });
}

fn safe_read(body: &[u8], max: usize) -> Res {
    let mut s = wire::with_len(body);
    s.extend_from_slice(&[0xAA; 9]);
    raw_read(&s, max)
}

/// One read of this stream: ends, does not panic, takes nothing behind the frame, reserves no
/// more than the frame size plus what the content it received explains.
fn raw_read(s: &[u8], max: usize) -> Res {
    let mut src: &[u8] = s;
    let mut r;
    let (mut peak, mut req);
    let content = s.len().saturating_sub(4).min(max);
    // the count of a message's arguments is one byte: room for that many may be made at once
    let allow = 2 * max + 96 * content + 4096 + 255 * 128;
    let mut tries = 0;
    loop {
        src = s;
        alloc::start();
        r = catch_unwind(AssertUnwindSafe(|| Framer::new(max).read_frame(&mut src).now_or_never()));
        (peak, req) = alloc::peak();
        tries += 1;
        // one-off initialisation (lazily built tables) is no cost of the frame
        if tries == 3 || (peak <= allow && req <= allow) {
            break;
        }
    }
    let used = s.len() - src.len();
    let declared = if s.len() >= 4 { u32::from_be_bytes(s[..4].try_into().unwrap()) as usize } else { 0 };
    let shown = &s[..s.len().min(80)];
    match r {
        Err(_) => fail!("reading {shown:02x?} (limit {max}) panics: {}", verif_sched::take_panic().unwrap_or_default()),
        Ok(None) => fail!("reading {shown:02x?} waits although the source has ended"),
        Ok(Some(x)) => {
            if s.len() >= 4 {
                ensure!(used <= 4 + declared.min(s.len() - 4), "reading {shown:02x?} took {used} bytes, the frame has {}", 4 + declared);
            }
            if s.len() < 4 || declared > max || s.len() - 4 < declared {
                ensure!(x.is_err(), "an incomplete or oversize frame {shown:02x?} was delivered");
            }
            ensure!(
                peak <= allow && req <= allow,
                "reading {shown:02x?} (limit {max}) reserved {peak} bytes, largest request {req}"
            );
        }
    }
    Ok(())
}
