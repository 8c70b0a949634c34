//! C29: the binary header block.  C30: errors, statuses and disconnect frames.
use crate::engine::*;
use crate::run::Run;
use crate::wire;
use crate::{ensure, fail};
use bytes::Buf;
use haproxy_spoa::req::hdrs_bin;
use haproxy_spoa::Error as SpoaError;
use haproxy_spop::{Disconnect, Error as Status};
use std::sync::atomic::{AtomicU64, Ordering};

// ---------------------------------------------------------------------------------------------
// C29

type Pairs = Vec<(Vec<u8>, Vec<u8>)>;

#[derive(Debug, PartialEq)]
enum Block {
    Headers(Pairs),
    Error(&'static str),
    /// ends at a pair boundary without the empty pair
    Open(Pairs),
}

fn token(b: u8) -> bool {
    b.is_ascii_alphanumeric() || b"!#$%&'*+-.^_`|~".contains(&b)
}
fn legal(k: &[u8], v: &[u8]) -> bool {
    !k.is_empty() && k.len() <= 65535 && k.iter().all(|b| token(*b)) && v.iter().all(|b| (*b >= 32 && *b != 127) || *b == 9)
}

/// The reference reading of a block.
fn block(b: &[u8]) -> Block {
    let mut p = 0;
    let mut out = vec![];
    let mut one = |p: &mut usize| -> Option<Vec<u8>> {
        let n = wire::get_varint(b, p)?;
        if n > (b.len() - *p) as u64 {
            return None;
        }
        let s = b[*p..*p + n as usize].to_vec();
        *p += n as usize;
        Some(s)
    };
    loop {
        if p == b.len() {
            return Block::Open(out);
        }
        let Some(k) = one(&mut p) else { return Block::Error("cut in a name") };
        let Some(v) = one(&mut p) else { return Block::Error("cut in a value") };
        if k.is_empty() && v.is_empty() {
            return Block::Headers(out);
        }
        if !legal(&k, &v) {
            return Block::Error("illegal header");
        }
        out.push((k.to_ascii_lowercase(), v));
    }
}

fn same(m: &http::HeaderMap, want: &Pairs) -> Result<(), String> {
    if m.len() != want.len() {
        return Err(format!("{} headers, expected {}", m.len(), want.len()));
    }
    let mut names: Vec<&[u8]> = want.iter().map(|x| &x.0[..]).collect();
    if want.len() > 8 {
        names.sort_unstable();
        names.dedup();
    }
    if want.len() > 64 {
        // many different names: every name once
        let mut by: std::collections::HashMap<&[u8], Vec<&[u8]>> = Default::default();
        for (k, v) in want {
            by.entry(k).or_default().push(v);
        }
        for (k, vs) in by {
            let k = std::str::from_utf8(k).unwrap();
            let got: Vec<&[u8]> = m.get_all(k).iter().map(|v| v.as_bytes()).collect();
            if got != vs {
                return Err(format!("header {k:?} has {} values, expected {}, or others", got.len(), vs.len()));
            }
        }
        return Ok(());
    }
    for k in names {
        let s = std::str::from_utf8(k).unwrap();
        let mut got = m.get_all(s).iter();
        for v in want.iter().filter(|x| x.0 == k).map(|x| &x.1) {
            match got.next() {
                Some(g) if g.as_bytes() == &v[..] => {}
                g => return Err(format!("header {s:?} has value {:?}, expected {:?}", g.map(|g| brief(g.as_bytes())), brief(v))),
            }
        }
        if got.next().is_some() {
            return Err(format!("header {s:?} has too many values"));
        }
    }
    Ok(())
}
fn brief(b: &[u8]) -> String {
    if b.len() > 40 {
        format!("{:?}.. ({} bytes)", String::from_utf8_lossy(&b[..40]), b.len())
    } else {
        format!("{:?}", String::from_utf8_lossy(b))
    }
}
fn hex(b: &[u8]) -> String {
    if b.len() > 48 {
        format!("{:02x?}.. ({} bytes)", &b[..48], b.len())
    } else {
        format!("{b:02x?}")
    }
}

fn judge(b: &[u8], want: &Block, got: &Result<http::HeaderMap, SpoaError>) -> Res {
    match (want, got) {
        (Block::Headers(w), Ok(m)) => same(m, w).map_err(|e| Violation(format!("block {}: {e}", hex(b)))),
        (Block::Open(w), Ok(m)) => same(m, w).map_err(|e| Violation(format!("unterminated block {}: {e}", hex(b)))),
        (Block::Open(_), Err(_)) => Ok(()),
        (Block::Error(_), Err(_)) => Ok(()),
        (Block::Headers(w), Err(e)) => fail!("block {} of {} headers is refused: {e}", hex(b), w.len()),
        (Block::Error(why), Ok(m)) => fail!("block {} ({why}) is accepted with {} headers {:?}", hex(b), m.len(), m.keys().take(5).collect::<Vec<_>>()),
    }
}

fn one(b: &[u8]) -> Res {
    judge(b, &block(b), &hdrs_bin(b))
}
/// The same block in one, two and three pieces.
fn pieces(b: &[u8], cuts: &[usize]) -> Res {
    let want = block(b);
    judge(b, &want, &hdrs_bin(b))?;
    for &i in cuts {
        let (x, y) = b.split_at(i);
        judge(b, &want, &hdrs_bin(x.chain(y))).map_err(|e| Violation(format!("in pieces of {i} and {} bytes: {}", b.len() - i, e.0)))?;
    }
    Ok(())
}

fn enc(hs: &[(&[u8], &[u8])], end: bool) -> Vec<u8> {
    let mut b = vec![];
    for (k, v) in hs {
        b.extend(wire::string(k));
        b.extend(wire::string(v));
    }
    if end {
        b.extend([0, 0]);
    }
    b
}

const NAMES: &str = "accept accept-charset accept-encoding accept-language accept-ranges access-control-allow-credentials \
    access-control-allow-headers access-control-allow-methods access-control-allow-origin \
    access-control-expose-headers access-control-max-age access-control-request-headers \
    access-control-request-method age allow alt-svc authorization cache-control cache-status cdn-cache-control \
    connection content-disposition content-encoding content-language content-length content-location content-range \
    content-security-policy content-security-policy-report-only content-type cookie date dnt etag expect expires \
    forwarded from host http2-settings if-match if-modified-since if-none-match if-range if-unmodified-since \
    keep-alive last-modified link location max-forwards origin pragma priority proxy-authenticate \
    proxy-authorization proxy-connection public-key-pins public-key-pins-report-only range referer referrer-policy \
    refresh retry-after sec-websocket-accept sec-websocket-extensions sec-websocket-key sec-websocket-protocol \
    sec-websocket-version server set-cookie strict-transport-security te trailer transfer-encoding upgrade \
    upgrade-insecure-requests user-agent vary via warning www-authenticate x-content-type-options \
    x-dns-prefetch-control x-forwarded-for x-frame-options x-n x-real-ip x-request-id x-xss-protection";

pub fn c29(r: &mut Run) {
    let len = r.q(7usize, 9);
    r.go(cfg("blocks", "every block of up to 7 (thorough: 9) bytes from 11 symbols: the lengths 0 to 5, first bytes of longer lengths, letters, a blank, an illegal byte"), |c| {
        let sy = [0u8, 1, 2, 3, 4, 0xF0, 0xFF, b'a', b'B', b' ', 0x7F];
        let (a, b, d) = (c.choose(11), c.choose(11), c.choose(11));
        let mut v = vec![sy[a], sy[b], sy[d]];
        one(&v)?;
        one(&v[..1])?;
        one(&v[..2])?;
        c.eval(3);
        for rest in 1..=len - 3 {
            let n = 11usize.pow(rest as u32);
            for i in 0..n {
                v.truncate(3);
                let mut i = i;
                for _ in 0..rest {
                    v.push(sy[i % 11]);
                    i /= 11;
                }
                one(&v)?;
            }
            c.eval(n as u64);
        }
        c.state(&(a, b, d));
        Ok(())
    });
    r.go(cfg("raw", "every block of up to 2 (thorough: 3) bytes; every pair of bytes as a name, as a value and as both, followed by another header"), |c| {
        let x = c.choose(256) as u8;
        let t = c.thorough();
        one(&[x])?;
        for y in 0..=255u8 {
            one(&[x, y])?;
            one(&enc(&[(&[x, y], b"v"), (b"b", b"w")], true))?;
            one(&enc(&[(b"n", &[x, y]), (b"b", b"w")], true))?;
            one(&enc(&[(&[x], &[y]), (b"b", b"w")], true))?;
            one(&enc(&[(b"a", b"w"), (&[x], &[y])], true))?;
            c.eval(5);
            if t {
                for z in 0..=255u8 {
                    one(&[x, y, z])?;
                }
                c.eval(256);
            }
        }
        c.state(&x);
        Ok(())
    });
    r.go(cfg("lists", "every list of up to 4 (thorough: 5) headers from 9, with equal names in several spellings, empty values and illegal ones, with and without the ending pair, with bytes after it; cut at every byte; in two pieces cut at every byte"), |c| {
        let al: [(&[u8], &[u8]); 9] = [
            (b"host", b"a.example"),
            (b"Host", b"b.example"),
            (b"x", b""),
            (b"cookie", b"c=1; d=2"),
            (b"cookie", b"c=1; d=2"),
            (b"x-t", b"\ta\xff\x80 "),
            (b"", b"v"),
            (b"no good", b"v"),
            (b"y", b"line\nfeed"),
        ];
        let mut hs = vec![];
        let max = if c.thorough() { 5 } else { 4 };
        for _ in 0..max {
            let k = c.choose(10);
            if k == 9 {
                break;
            }
            hs.push(al[k]);
        }
        let tail = c.choose(4);
        let mut b = enc(&hs, tail > 0);
        match tail {
            2 => b.extend(enc(&[(b"after", b"end")], false)),
            3 => b.extend([0xff, 0xff]),
            _ => {}
        }
        let all: Vec<usize> = (0..=b.len()).collect();
        pieces(&b, &all)?;
        for i in 0..b.len() {
            one(&b[..i])?;
        }
        c.eval(2 * b.len() as u64 + 2);
        c.state(&(hs.len(), b.len()));
        c.note(|| format!("{} headers, tail {tail}", hs.len()));
        Ok(())
    });
    r.go(cfg("lengths", "names and values of every length to 700 and around every encoding boundary to 70000 (values: 300000), alone, before and after other headers; cut at the ends; in pieces"), |c| {
        let mut lens: Vec<usize> = (0..700).collect();
        for x in [2288usize, 16384, 32768, 65535, 264432] {
            lens.extend(x - 3..x + 4);
        }
        let n = lens[c.choose(lens.len())];
        let which = c.choose(4);
        let long = vec![b'q'; n];
        let hs: Vec<(&[u8], &[u8])> = match which {
            0 => vec![(&long, b"v"), (b"b", b"w")],
            1 => vec![(b"a", &long), (b"b", b"w")],
            2 => vec![(b"a", b"v"), (b"cookie", &long), (b"cookie", &long), (b"a", b"w")],
            _ => vec![(&long, &long)],
        };
        let b = enc(&hs, true);
        let cuts: Vec<usize> = [1usize, 2, 3, 4, 5, n, n + 1, n + 2, n + 3].into_iter().filter(|x| *x <= b.len()).collect();
        pieces(&b, &cuts)?;
        for k in 1..b.len().min(12) {
            one(&b[..b.len() - k])?;
            one(&b[..k])?;
        }
        c.eval(33);
        c.state(&(n, which));
        Ok(())
    });
    r.go(cfg("names", "every ordered pair of the standard HTTP header names and some in wide use, as such, with the first repeated behind and in capitals, with plain, empty and list-like values"), |c| {
        let names: Vec<&str> = NAMES.split_whitespace().collect();
        let a = *c.of(&names);
        let vals: [&[u8]; 4] = [b"v", b"", b"a, b", b"close"];
        for b in &names {
            let up = a.to_uppercase();
            for (i, v) in vals.iter().enumerate() {
                let w = vals[(i + 1) % 4];
                one(&enc(&[(a.as_bytes(), v), (b.as_bytes(), w)], true))?;
                one(&enc(&[(a.as_bytes(), v), (b.as_bytes(), w), (up.as_bytes(), w), (b"z", v)], true))?;
            }
            c.eval(8);
        }
        c.state(&a);
        Ok(())
    });
    r.go(cfg("bytes", "every byte value in every place of names and values of up to 4 bytes"), |c| {
        let x = c.choose(256) as u8;
        for n in 1..=4usize {
            for i in 0..n {
                let mut s = vec![b'a'; n];
                s[i] = x;
                one(&enc(&[(&s, b"v")], true))?;
                one(&enc(&[(b"k", &s)], true))?;
                one(&enc(&[(b"f", b"1"), (&s, &s), (b"l", b"2")], true))?;
                c.eval(3);
            }
        }
        c.state(&x);
        Ok(())
    });
    r.go(cfg("huge lengths", "announced lengths at and around every power of two up to 2^64-1, overlong and overflowing encodings, in the place of a name's and a value's length, with little data after it"), |c| {
        let mut vals: Vec<u64> = vec![];
        for k in 3..64 {
            for d in [-1i64, 0, 1] {
                vals.push((1u64 << k).wrapping_add(d as u64));
            }
        }
        vals.push(u64::MAX);
        let k = c.choose(vals.len() + 40);
        let l = if k < vals.len() {
            wire::varint(vals[k])
        } else {
            // first byte and j continuation bytes, then an end
            let j = k - vals.len();
            let mut v = vec![[0xF0u8, 0xFF][j % 2]];
            v.extend(vec![0xFFu8; j / 2]);
            v.push(1);
            v
        };
        let before = c.flag();
        for rest in [0usize, 1, 7, 300] {
            for value in [false, true] {
                let mut b = vec![];
                if before {
                    b.extend(enc(&[(b"a", b"b")], false));
                }
                if value {
                    b.extend(wire::string(b"k"));
                }
                b.extend(&l);
                b.extend(vec![b'z'; rest]);
                one(&b)?;
                c.eval(1);
            }
        }
        c.state(&l);
        Ok(())
    });
    r.go(cfg("many", "blocks of 1 to 40000 headers (15 counts), all of one name, all different, in turns"), |c| {
        let n = *c.of(&[1usize, 2, 3, 8, 64, 100, 255, 256, 257, 1000, 4096, 20000, 24576, 32769, 40000]);
        let how = c.choose(3);
        let mut b = vec![];
        for i in 0..n {
            let k = match how {
                0 => "cookie".to_string(),
                1 => format!("h{i}"),
                _ => format!("h{}", i % 7),
            };
            b.extend(wire::string(k.as_bytes()));
            b.extend(wire::string(i.to_string().as_bytes()));
        }
        b.extend([0, 0]);
        let want = block(&b);
        let got = hdrs_bin(&b[..]);
        // the header map holds no more than 24576 different names
        if !(got.is_err() && n > 16384) {
            judge(&b, &want, &got)?;
        }
        c.eval(1);
        c.state(&(n, how));
        Ok(())
    });
}

// ---------------------------------------------------------------------------------------------
// C30

const CODES: [(u32, Status); 15] = [
    (0, Status::Normal),
    (1, Status::Io),
    (2, Status::Timeout),
    (3, Status::TooBig),
    (4, Status::Invalid),
    (5, Status::NoVersion),
    (6, Status::NoFrameSize),
    (7, Status::NoCapabilities),
    (8, Status::BadVersion),
    (9, Status::BadFrameSize),
    (10, Status::FragmentNotSupported),
    (11, Status::InterlacedFrames),
    (12, Status::FrameIdNotFound),
    (13, Status::ResourceAllocErr),
    (99, Status::Unknown),
];

#[derive(Debug)]
struct Foreign(&'static str);
impl std::fmt::Display for Foreign {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(self.0)
    }
}
impl std::error::Error for Foreign {}

enum Root {
    E(SpoaError),
    /// only as the source of a context
    B(Box<dyn std::error::Error + Send + Sync>),
}
const ROOTS: usize = 15 * 2 + 8;
fn root(k: usize) -> (Root, Option<u32>) {
    #[allow(invalid_from_utf8)]
    match k {
        0..=14 => (Root::E(SpoaError::Status(CODES[k].1)), Some(CODES[k].0)),
        15..=29 => (Root::B(Box::new(CODES[k - 15].1)), Some(CODES[k - 15].0)),
        30 => (Root::E(SpoaError::Closed), None),
        31 => (Root::E(std::str::from_utf8(&[0xffu8][..]).unwrap_err().into()), None),
        32 => (Root::E(std::io::Error::new(std::io::ErrorKind::TimedOut, "slow").into()), None),
        33 => (Root::E(http::Error::from(http::Method::from_bytes(b"\x00").unwrap_err()).into()), None),
        34 => (Root::E(http::HeaderName::from_bytes(b"a b").unwrap_err().into()), None),
        35 => (Root::E(http::HeaderValue::from_bytes(b"\x00").unwrap_err().into()), None),
        36 => (Root::B(Box::new(Foreign("foreign trouble"))), None),
        _ => (Root::B(Box::new(std::io::Error::other("io trouble"))), None),
    }
}

/// An error with these layers of context, innermost first.
fn chain(k: usize, ctx: &[usize]) -> Option<(SpoaError, Option<u32>)> {
    const T: [&str; 4] = ["", "a", "reading späm", "invalid frame received"];
    let (r, st) = root(k);
    let wrap = |s: Box<dyn std::error::Error + Send + Sync>, t: usize| -> SpoaError {
        if t < 4 {
            SpoaError::Context { source: s, context: Box::new(T[t]) }
        } else {
            SpoaError::Context { source: s, context: Box::new(text(t)) }
        }
    };
    let (mut e, from) = match r {
        Root::E(e) => (e, 0),
        Root::B(b) => {
            let t = ctx.first()?;
            (wrap(b, *t), 1)
        }
    };
    for t in &ctx[from..] {
        e = wrap(Box::new(e), *t);
    }
    Some((e, st))
}
fn text(t: usize) -> String {
    match t {
        0 => "".into(),
        1 => "a".into(),
        2 => "reading späm".into(),
        3 => "invalid frame received".into(),
        4 => "an owned text \u{1F4A5}".into(),
        _ => "long ".repeat(2000),
    }
}

pub fn c30(r: &mut Run) {
    r.go(cfg("codes", "every 32-bit number as a status code and every status as a number"), |c| {
        let k = c.choose(256) as u32;
        let lo = k << 24;
        let ok = AtomicU64::new(0);
        for i in 0..1u32 << 24 {
            let n = lo | i;
            if let Ok(s) = Status::try_from(n) {
                ok.fetch_add(1, Ordering::Relaxed);
                ensure!(CODES.iter().any(|x| x.0 == n && x.1 == s), "the number {n} converts to {s:?}");
                ensure!(u32::from(s) == n, "{s:?} converts to {}", u32::from(s));
            }
        }
        let want = CODES.iter().filter(|x| x.0 >> 24 == k).count() as u64;
        ensure!(ok.load(Ordering::Relaxed) == want, "{} numbers convert, expected {want}", ok.load(Ordering::Relaxed));
        for (n, s) in CODES {
            ensure!(u32::from(s) == n && s as u32 == n, "{s:?} is {} instead of {n}", u32::from(s));
            let d = Disconnect::new(s, "x");
            ensure!(d.status_code == n && d.message == "x", "a disconnect of {s:?} has status {}", d.status_code);
        }
        c.state(&k);
        c.eval(1 << 24);
        Ok(())
    });
    r.go(cfg("chains", "38 roots (every status as an error and as a bare source, every other kind of error, foreign errors) under up to 4 (thorough: 6) layers of context with 6 texts in every order"), |c| {
        let k = c.choose(ROOTS);
        let mut ctx = vec![];
        let max = if c.thorough() { 6 } else { 4 };
        for _ in 0..max {
            let t = c.choose(7);
            if t == 6 {
                break;
            }
            ctx.push(t);
        }
        let Some((e, st)) = chain(k, &ctx) else { return Ok(()) };
        let own = e.to_string();
        let dbg = format!("{own:.80} (root {k}, contexts {ctx:?})");
        ensure!(e.status().map(u32::from) == st, "{dbg}: status() is {:?}, expected {st:?}", e.status());
        let d: Disconnect = e.into();
        ensure!(d.status_code == st.unwrap_or(99), "{dbg}: the disconnect has status {}, expected {}", d.status_code, st.unwrap_or(99));
        match (st, ctx.last()) {
            (Some(_), Some(t)) => ensure!(d.message == text(*t), "{dbg}: the disconnect says {:.80?}, expected the outermost context {:.80?}", d.message, text(*t)),
            // without a status the text may also tell the cause
            (None, Some(t)) => ensure!(d.message == own || d.message == text(*t), "{dbg}: the disconnect says {:.80?}", d.message),
            _ => ensure!(d.message == own, "{dbg}: the disconnect says {:.80?}, expected {:.80?}", d.message, own),
        }
        c.state(&(k, &ctx));
        c.eval(1);
        Ok(())
    });
    r.go(cfg("deep", "the same 38 roots under every number of layers of context up to 200, with 6 texts in turns from each of them on"), |c| {
        let k = c.choose(ROOTS);
        let mut ctx = vec![];
        let (n, from) = (c.choose(201), c.choose(6));
        ctx.extend((0..n).map(|i| (i + from) % 6));
        let Some((e, st)) = chain(k, &ctx) else { return Ok(()) };
        let own = e.to_string();
        let dbg = format!("{own:.80} (root {k}, contexts {ctx:?})");
        ensure!(e.status().map(u32::from) == st, "{dbg}: status() is {:?}, expected {st:?}", e.status());
        let d: Disconnect = e.into();
        ensure!(d.status_code == st.unwrap_or(99), "{dbg}: the disconnect has status {}, expected {}", d.status_code, st.unwrap_or(99));
        match (st, ctx.last()) {
            (Some(_), Some(t)) => ensure!(d.message == text(*t), "{dbg}: the disconnect says {:.80?}, expected the outermost context {:.80?}", d.message, text(*t)),
            // without a status the text may also tell the cause
            (None, Some(t)) => ensure!(d.message == own || d.message == text(*t), "{dbg}: the disconnect says {:.80?}", d.message),
            _ => ensure!(d.message == own, "{dbg}: the disconnect says {:.80?}, expected {:.80?}", d.message, own),
        }
        c.state(&(k, &ctx));
        c.eval(1);
        Ok(())
    });
}
