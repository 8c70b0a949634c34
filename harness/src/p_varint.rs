//! C01: the variable-length integer, observed through frames.
use crate::engine::*;
use crate::run::Run;
use crate::wire;
use futures::FutureExt;
use haproxy_spoa::spop::{Error, Frame, Framer, HaproxyNotify, Message, Typed};

pub fn write(f: &Frame, max: usize) -> Result<(Vec<u8>, usize), Error> {
    let mut v: Vec<u8> = vec![];
    let r = Framer::new(max).write_frame(&mut v, f.clone()).now_or_never();
    match r {
        Some(Ok(n)) => Ok((v, n)),
        Some(Err(e)) => {
            if v.is_empty() {
                Err(e)
            } else {
                Ok((v, usize::MAX))
            }
        }
        None => panic!("write_frame waits although the writer accepts everything"),
    }
}
pub fn read(b: &[u8], max: usize) -> Result<Frame, Error> {
    match Framer::new(max).read_frame(b).now_or_never() {
        Some(r) => r,
        None => panic!("read_frame waits although the source is complete"),
    }
}

const B: usize = 255;

/// Writes and reads frames carrying these values everywhere an integer can be.
fn check_values(vals: &[u64]) -> Result<u64, Violation> {
    let mut n = 0;
    for c in vals.chunks(B) {
        let mut args: Vec<(String, Typed)> = Vec::with_capacity(c.len());
        for (i, v) in c.iter().enumerate() {
            let t = match i % 2 {
                0 => Typed::Uint64(*v),
                _ => Typed::Int64(*v as i64),
            };
            args.push(("k".into(), t));
        }
        let mut args2: Vec<(String, Typed)> = Vec::with_capacity(c.len());
        for (i, v) in c.iter().enumerate() {
            let t = match i % 2 {
                0 => Typed::Int32(*v as i32),
                _ => Typed::Uint32(*v as u32),
            };
            args2.push(("k".into(), t));
        }
        let f = Frame::HaproxyNotify(HaproxyNotify {
            fragmented: false,
            stream_id: c[0],
            frame_id: c[c.len() - 1].max(1),
            messages: vec![
                Message { name: "a".into(), args },
                Message { name: "b".into(), args: args2 },
            ],
        });
        let (b, cnt) = match write(&f, 1 << 14) {
            Ok(x) => x,
            Err(e) => fail!("writing values {:?}.. failed: {e}", &c[..4.min(c.len())]),
        };
        ensure!(cnt == b.len(), "write_frame reported {cnt}, wrote {}", b.len());
        let want = wire::wire(&f);
        if b != want {
            fail!("{}", first_diff(c, &b, &want));
        }
        match read(&b, 1 << 14) {
            Ok(g) if g == f => {}
            Ok(g) => fail!("read back a different frame for values among {:?}: {}", c, diff(&f, &g)),
            Err(e) => fail!("frame with values among {:?} refused: {e}", c),
        }
        n += c.len() as u64;
    }
    // ids and predicted size, value by value
    for (i, v) in vals.iter().enumerate() {
        let w = vals[vals.len() - 1 - i].max(1);
        check_ids(*v, w)?;
        n += 1;
    }
    Ok(n)
}

fn check_ids(s: u64, fid: u64) -> Res {
    for f in [
        Frame::HaproxyNotify(HaproxyNotify { fragmented: false, stream_id: s, frame_id: fid, messages: vec![] }),
        Frame::ack(s, fid, Vec::<haproxy_spoa::spop::Action>::new()),
    ] {
        let (b, _) = match write(&f, 64) {
            Ok(x) => x,
            Err(e) => fail!("writing ids {s}/{fid} failed: {e}"),
        };
        let md = f.metadata().unwrap();
        ensure!(
            md.size() == b.len() - 5,
            "metadata of stream {s} frame {fid}: predicted {} bytes, wrote {}",
            md.size(),
            b.len() - 5
        );
        ensure!(md.stream_id == s && md.frame_id == fid, "metadata() does not hold the frame's ids");
        ensure!(b == wire::wire(&f), "ids {s}/{fid} written as {:02x?}", &b[4..]);
        match read(&b, 64) {
            Ok(g) if g == f => {}
            r => fail!("ids {s}/{fid} read back as {r:?}"),
        }
    }
    Ok(())
}

fn diff(a: &Frame, b: &Frame) -> String {
    if let (Frame::HaproxyNotify(a), Frame::HaproxyNotify(b)) = (a, b) {
        for (m, n) in a.messages.iter().zip(&b.messages) {
            for (x, y) in m.args.iter().zip(&n.args) {
                if x != y {
                    return format!("{:?} became {:?}", x.1, y.1);
                }
            }
        }
        return format!("ids {}/{} became {}/{}", a.stream_id, a.frame_id, b.stream_id, b.frame_id);
    }
    "?".into()
}
fn first_diff(c: &[u64], b: &[u8], w: &[u8]) -> String {
    let i = b.iter().zip(w).position(|(x, y)| x != y).unwrap_or(b.len().min(w.len()));
    format!("values {:?}..: byte {i} written {:02x?}, expected {:02x?}", &c[..2.min(c.len())], b.get(i), w.get(i))
}

pub fn boundaries() -> Vec<u64> {
    let mut v = vec![0u64, 240];
    let mut b = 240u64;
    let mut step = 1u64 << 11;
    for _ in 0..8 {
        b = b.wrapping_add(step);
        v.push(b);
        step = step.wrapping_shl(7);
    }
    for k in 0..64 {
        v.push(1 << k);
    }
    v.push(u64::MAX);
    v.push(i64::MAX as u64);
    v.push(i32::MIN as i64 as u64);
    v.push(u32::MAX as u64);
    for k in 1..=8 {
        v.push(0x1020_4081_0204_08f0u64 >> (7 * k));
    }
    v.push(0x1020_4081_0204_08f0);
    v.sort_unstable();
    v.dedup();
    v
}

pub fn c01(r: &mut Run) {
    let blk = 4096u64;
    let dense = r.q(1u64 << 22, 1u64 << 27) / blk;
    r.go(
        cfg("dense", "every value below 2^22 (thorough: 2^27) as 64- and 32-bit item, stream id and frame id; also its 64-bit complement (the negative values)"),
        |c| {
            let k = c.choose(dense as usize) as u64;
            let v: Vec<u64> = (k * blk..(k + 1) * blk).collect();
            let n = check_values(&v)?;
            let w: Vec<u64> = v.iter().map(|x| !x).collect();
            c.eval(n + check_values(&w)?);
            c.state(&v[0]);
            Ok(())
        },
    );
    let bs = boundaries();
    let win = r.q(2048u64, 1 << 16);
    r.go(
        cfg("boundaries", "windows around every encoding-length boundary and every power of two"),
        |c| {
            let b = bs[c.choose(bs.len())];
            let lo = b.wrapping_sub(win);
            let v: Vec<u64> = (0..2 * win).map(|i| lo.wrapping_add(i)).collect();
            c.eval(check_values(&v)?);
            c.state(&b);
            c.note(|| format!("window around {b:#x}"));
            Ok(())
        },
    );
    r.go(
        cfg("groups", "every combination of first nibble {0,1,8,15} and 7-bit groups {min,alternating,max} for every encoded length"),
        |c| {
            let first = 0xF0 | *c.of(&[0u8, 1, 8, 15]);
            let len = c.choose(10);
            let mut head = vec![first];
            let free = len.min(3);
            for _ in 0..free {
                head.push(*c.of(&[0x80u8, 0xAA, 0xD5, 0xFF]));
            }
            // the remaining groups inside one execution
            let rest = len - free;
            let mut vals = vec![];
            for m in 0..3u32.pow(rest as u32) {
                let mut b = head.clone();
                let mut m = m;
                for _ in 0..rest {
                    b.push([0x80u8, 0xAA, 0xFF][(m % 3) as usize]);
                    m /= 3;
                }
                for last in [0u8, 1, 2, 0x0E, 0x0F, 0x10, 0x55, 0x7F] {
                    let mut x = b.clone();
                    x.push(last);
                    let mut p = 0;
                    if let Some(v) = wire::get_varint(&x, &mut p) {
                        if wire::varint(v) != x {
                            fail!("machinery: the reference codec is not a bijection at {x:02x?}");
                        }
                        vals.push(v);
                    }
                }
            }
            if !vals.is_empty() {
                c.eval(check_values(&vals)?);
            }
            c.state(&(head, rest));
            Ok(())
        },
    );
    r.go(
        cfg("ids", "every pair of boundary values +-1 as stream id and frame id"),
        |c| {
            let mut v: Vec<u64> = bs.iter().flat_map(|b| [b.wrapping_sub(1), *b, b.wrapping_add(1)]).collect();
            v.sort_unstable();
            v.dedup();
            let s = v[c.choose(v.len())];
            for f in &v {
                if *f != 0 {
                    check_ids(s, *f)?;
                }
            }
            c.eval(v.len() as u64);
            c.state(&s);
            Ok(())
        },
    );
    let deep = r.q(5usize, 7);
    r.go(
        cfg("decode", "every byte string of up to 5 (thorough: 7) bytes after the first over {00,01,7f,80,ff}, and longer ones over {80,ff} with every ending, as stream id, frame id, integer item and string length: exact value, or an error if cut or beyond 64 bits"),
        |c| {
            let first = *c.of(&[0xEFu8, 0xF0, 0xF7, 0xFF]);
            let mode = c.choose(2);
            let mut seqs: Vec<Vec<u8>> = vec![];
            if mode == 0 {
                let a = [0u8, 1, 0x7F, 0x80, 0xFF];
                let n = c.choose(deep + 1);
                let pre: Vec<u8> = (0..n.min(2)).map(|_| *c.of(&a)).collect();
                let rest = n - pre.len();
                for m in 0..5u32.pow(rest as u32) {
                    let mut b = vec![first];
                    b.extend(&pre);
                    let mut m = m;
                    for _ in 0..rest {
                        b.push(a[(m % 5) as usize]);
                        m /= 5;
                    }
                    seqs.push(b);
                }
            } else {
                let n = c.choose(14);
                for m in 0..1u32 << n.min(10) {
                    let mut b = vec![first];
                    for i in 0..n {
                        b.push(if m >> (i % 10) & 1 == 1 { 0xFF } else { 0x80 });
                    }
                    seqs.push(b.clone());
                    for last in [0u8, 1, 2, 0x0D, 0x0E, 0x0F, 0x10, 0x1F, 0x20, 0x7F] {
                        let mut x = b.clone();
                        x.push(last);
                        seqs.push(x);
                    }
                }
            }
            for s in &seqs {
                decode_all(s)?;
            }
            c.eval(seqs.len() as u64 * 4);
            c.state(&(first, mode, seqs.len(), fp(&seqs)));
            Ok(())
        },
    );
}

/// `raw` as a varint in each place of a frame; trailing bytes it leaves over are part of the frame.
fn decode_all(raw: &[u8]) -> Res {
    // last thing in the frame: cut exactly where raw ends
    let mut item = wire::head(wire::T_NOTIFY, 1, 1, 1);
    item.extend(b"\x01m\x01\x01k\x05");
    item.extend(raw);
    let mut sid = vec![wire::T_NOTIFY, 0, 0, 0, 1];
    sid.extend(raw);
    let mut sid2 = sid.clone();
    sid2.push(7);
    let mut fid = vec![wire::T_ACK, 0, 0, 0, 1, 9];
    fid.extend(raw);
    let mut len = wire::head(wire::T_NOTIFY, 1, 1, 1);
    len.extend(raw);
    let mut bin = wire::head(wire::T_NOTIFY, 1, 1, 1);
    bin.extend(b"\x01m\x01\x01k\x09");
    bin.extend(raw);
    for (what, b) in [("integer item", item), ("stream id", sid), ("stream id", sid2), ("frame id", fid), ("string length", len), ("binary length", bin)] {
        check_parse(what, &b)?;
    }
    Ok(())
}

pub fn check_parse(what: &str, b: &[u8]) -> Res {
    // a good frame follows: a bad one is not to be passed over in silence
    let mut s = Vec::with_capacity(b.len() + 32);
    s.extend_from_slice(&(b.len() as u32).to_be_bytes());
    s.extend_from_slice(b);
    s.extend_from_slice(&[0, 0, 0, 11, wire::T_ACK, 0, 0, 0, 1, 77, 77, 2, 2, 1, 0]);
    let got = read(&s, 1 << 16);
    match (wire::parse(b), got) {
        (wire::Verdict::Frame(f), Ok(g)) if f == g => Ok(()),
        (wire::Verdict::Reject(_), Err(_)) => Ok(()),
        (wire::Verdict::Either(_), Err(_)) => Ok(()),
        (wire::Verdict::Either(f), Ok(g)) if f == g => Ok(()),
        (wire::Verdict::Open(_), Err(_)) => Ok(()),
        (wire::Verdict::Open(t), Ok(g)) if t == wire::type_code(&g) => Ok(()),
        (v, g) => Err(Violation(format!("{what}: frame {b:02x?} must be {v:?}, was {g:?}"))),
    }
}
