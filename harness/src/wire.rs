//! Reference model of the SPOP wire format, written from the SPOE/SPOP specification and
//! independent of the code under test (which it uses only for the data types).
use haproxy_spoa::spop::{
    Action, AgentAck, AgentHello, Capability, Disconnect, Frame, HaproxyHello, HaproxyNotify,
    Message, Scope, Typed, Version,
};

pub const T_UNSET: u8 = 0;
pub const T_HHELLO: u8 = 1;
pub const T_HDISC: u8 = 2;
pub const T_NOTIFY: u8 = 3;
pub const T_AHELLO: u8 = 101;
pub const T_ADISC: u8 = 102;
pub const T_ACK: u8 = 103;
pub const FIN: u32 = 1;
pub const ABORT: u32 = 2;

// ---------------------------------------------------------------------------------------------
// encoder

pub fn varint(v: u64) -> Vec<u8> {
    let mut o = vec![];
    if v < 240 {
        o.push(v as u8);
        return o;
    }
    // first byte: 4 low bits below an all-ones nibble; the rest in 7-bit groups, each continued
    // group being offset by one unit of the next
    o.push(0xF0 | (v & 0x0F) as u8);
    let mut rest = (v - 240) / 16;
    loop {
        if rest < 128 {
            o.push(rest as u8);
            return o;
        }
        o.push(0x80 | (rest % 128) as u8);
        rest = (rest - 128) / 128;
    }
}

/// Decodes at `*p`; None if it is cut short or exceeds 64 bits.
pub fn get_varint(b: &[u8], p: &mut usize) -> Option<u64> {
    let first = *b.get(*p)?;
    *p += 1;
    if first < 240 {
        return Some(first as u64);
    }
    let mut v = first as u128;
    let mut shift = 4u32;
    loop {
        let c = *b.get(*p)?;
        *p += 1;
        if shift < 100 {
            v += (c as u128) << shift;
        } else if c != 0 {
            return None;
        }
        if v > u64::MAX as u128 {
            // consume nothing more: it is an error anyway
            return None;
        }
        shift += 7;
        if c < 128 {
            return Some(v as u64);
        }
    }
}

pub fn string(s: &[u8]) -> Vec<u8> {
    let mut o = varint(s.len() as u64);
    o.extend_from_slice(s);
    o
}

pub fn typed(t: &Typed) -> Vec<u8> {
    fn int(code: u8, v: u64) -> Vec<u8> {
        let mut o = vec![code];
        o.extend(varint(v));
        o
    }
    match t {
        Typed::Null => vec![0],
        Typed::Boolean(b) => vec![if *b { 0x11 } else { 0x01 }],
        Typed::Int32(v) => int(2, *v as i64 as u64),
        Typed::Uint32(v) => int(3, *v as u64),
        Typed::Int64(v) => int(4, *v as u64),
        Typed::Uint64(v) => int(5, *v),
        Typed::Ipv4(a) => {
            let mut o = vec![6];
            o.extend(a.octets());
            o
        }
        Typed::Ipv6(a) => {
            let mut o = vec![7];
            o.extend(a.octets());
            o
        }
        Typed::String(s) => {
            let mut o = vec![8];
            o.extend(string(s.as_bytes()));
            o
        }
        Typed::Binary(b) => {
            let mut o = vec![9];
            o.extend(string(b));
            o
        }
    }
}

pub fn head(ty: u8, flags: u32, sid: u64, fid: u64) -> Vec<u8> {
    let mut o = vec![ty];
    o.extend(flags.to_be_bytes());
    o.extend(varint(sid));
    o.extend(varint(fid));
    o
}

pub fn kv(key: &str, v: &Typed) -> Vec<u8> {
    let mut o = string(key.as_bytes());
    o.extend(typed(v));
    o
}

pub fn version(v: &Version) -> String {
    format!("{}.{}", v.major, v.minor)
}
pub fn cap(c: &Capability) -> &'static str {
    match c {
        Capability::Fragmentation => "fragmentation",
        Capability::Pipelining => "pipelining",
        Capability::Async => "async",
    }
}
pub fn scope(s: &Scope) -> u8 {
    match s {
        Scope::Process => 0,
        Scope::Session => 1,
        Scope::Transaction => 2,
        Scope::Request => 3,
        Scope::Response => 4,
    }
}
pub const SCOPES: [Scope; 5] =
    [Scope::Process, Scope::Session, Scope::Transaction, Scope::Request, Scope::Response];
pub const CAPS: [Capability; 3] =
    [Capability::Fragmentation, Capability::Pipelining, Capability::Async];

pub fn versions(vs: &[Version]) -> Typed {
    Typed::String(vs.iter().map(version).collect::<Vec<_>>().join(","))
}
pub fn caps(cs: &[Capability]) -> Typed {
    Typed::String(cs.iter().map(cap).collect::<Vec<_>>().join(","))
}

pub fn message(m: &Message) -> Vec<u8> {
    let mut o = string(m.name.as_bytes());
    o.push(m.args.len() as u8);
    for (k, v) in &m.args {
        o.extend(kv(k, v));
    }
    o
}

pub fn action(a: &Action) -> Vec<u8> {
    let mut o;
    match a {
        Action::SetVar { scope: s, name, value } => {
            o = vec![1, 3, scope(s)];
            o.extend(string(name.as_bytes()));
            o.extend(typed(value));
        }
        Action::UnsetVar { scope: s, name } => {
            o = vec![2, 2, scope(s)];
            o.extend(string(name.as_bytes()));
        }
    }
    o
}

/// The frame's content without the length prefix.
pub fn body(f: &Frame) -> Vec<u8> {
    match f {
        Frame::Unset => head(T_UNSET, FIN, 0, 0),
        Frame::HaproxyHello(h) => {
            let mut o = head(T_HHELLO, FIN, 0, 0);
            o.extend(kv("supported-versions", &versions(&h.supported_versions)));
            o.extend(kv("max-frame-size", &Typed::Uint32(h.max_frame_size)));
            o.extend(kv("capabilities", &caps(&h.capabilities)));
            if let Some(b) = h.healthcheck {
                o.extend(kv("healthcheck", &Typed::Boolean(b)));
            }
            if let Some(e) = &h.engine_id {
                o.extend(kv("engine-id", &Typed::String(e.clone())));
            }
            o
        }
        Frame::AgentHello(h) => {
            let mut o = head(T_AHELLO, FIN, 0, 0);
            o.extend(kv("version", &versions(&[h.version])));
            o.extend(kv("max-frame-size", &Typed::Uint32(h.max_frame_size)));
            o.extend(kv("capabilities", &caps(&h.capabilities)));
            o
        }
        Frame::HaproxyDisconnect(d) => disc(T_HDISC, d),
        Frame::AgentDisconnect(d) => disc(T_ADISC, d),
        Frame::HaproxyNotify(n) => {
            let mut o = head(T_NOTIFY, if n.fragmented { 0 } else { FIN }, n.stream_id, n.frame_id);
            for m in &n.messages {
                o.extend(message(m));
            }
            o
        }
        Frame::AgentAck(a) => {
            let fl = if a.fragmented { 0 } else { FIN } | if a.aborted { ABORT } else { 0 };
            let mut o = head(T_ACK, fl, a.stream_id, a.frame_id);
            for x in &a.actions {
                o.extend(action(x));
            }
            o
        }
    }
}
fn disc(t: u8, d: &Disconnect) -> Vec<u8> {
    let mut o = head(t, FIN, 0, 0);
    o.extend(kv("status-code", &Typed::Uint32(d.status_code)));
    o.extend(kv("message", &Typed::String(d.message.clone())));
    o
}

pub fn with_len(body: &[u8]) -> Vec<u8> {
    let mut o = (body.len() as u32).to_be_bytes().to_vec();
    o.extend_from_slice(body);
    o
}
/// The frame as it appears on the wire.
pub fn wire(f: &Frame) -> Vec<u8> {
    with_len(&body(f))
}

// ---------------------------------------------------------------------------------------------
// strict parser

#[derive(Clone, Debug, PartialEq)]
pub enum Verdict {
    /// must be read as exactly this frame
    Frame(Frame),
    /// must be an error
    Reject(&'static str),
    /// the specification leaves it open: this frame or an error
    Either(Frame),
    /// the specification leaves it open: any frame of this type code, or an error
    Open(u8),
}

struct P<'a> {
    b: &'a [u8],
    p: usize,
    /// something was met for which SPOP does not fix the meaning
    open: bool,
    loose: bool,
}
type R<T> = Result<T, &'static str>;

impl P<'_> {
    fn more(&self) -> bool {
        self.p < self.b.len()
    }
    fn u8(&mut self) -> R<u8> {
        let v = *self.b.get(self.p).ok_or("cut")?;
        self.p += 1;
        Ok(v)
    }
    fn take(&mut self, n: u64) -> R<&[u8]> {
        let left = (self.b.len() - self.p) as u64;
        if n > left {
            return Err("cut");
        }
        let s = &self.b[self.p..self.p + n as usize];
        self.p += n as usize;
        Ok(s)
    }
    fn varint(&mut self) -> R<u64> {
        get_varint(self.b, &mut self.p).ok_or("varint")
    }
    fn str(&mut self) -> R<String> {
        let n = self.varint()?;
        let b = self.take(n)?;
        String::from_utf8(b.to_vec()).map_err(|_| "utf-8")
    }
    fn typed(&mut self) -> R<Typed> {
        let t = self.u8()?;
        let (ty, fl) = (t & 0x0F, t & 0xF0);
        if (ty == 1 && fl & !0x10 != 0) || (ty != 1 && ty <= 9 && fl != 0) {
            // unused flag bits: SPOP gives them no meaning
            self.loose = true;
        }
        Ok(match ty {
            0 => Typed::Null,
            1 => Typed::Boolean(fl & 0x10 != 0),
            2 => {
                let v = self.varint()?;
                if v as i64 > i32::MAX as i64 || (v as i64) < i32::MIN as i64 {
                    self.open = true;
                }
                Typed::Int32(v as i32)
            }
            3 => {
                let v = self.varint()?;
                if v > u32::MAX as u64 {
                    self.open = true;
                }
                Typed::Uint32(v as u32)
            }
            4 => Typed::Int64(self.varint()? as i64),
            5 => Typed::Uint64(self.varint()?),
            6 => {
                let b: [u8; 4] = self.take(4)?.try_into().unwrap();
                Typed::Ipv4(b.into())
            }
            7 => {
                let b: [u8; 16] = self.take(16)?.try_into().unwrap();
                Typed::Ipv6(b.into())
            }
            8 => Typed::String(self.str()?),
            9 => {
                let n = self.varint()?;
                Typed::Binary(self.take(n)?.to_vec().into())
            }
            _ => return Err("data type"),
        })
    }
    fn kvs(&mut self) -> R<Vec<(String, Typed)>> {
        let mut v: Vec<(String, Typed)> = vec![];
        while self.more() {
            let k = self.str()?;
            let t = self.typed()?;
            if v.iter().any(|(x, _)| *x == k) {
                // a repeated item: SPOP does not say which one counts
                self.open = true;
            }
            v.push((k, t));
        }
        Ok(v)
    }
}

fn find<'a>(kv: &'a [(String, Typed)], k: &str) -> Option<&'a Typed> {
    kv.iter().find(|(x, _)| x == k).map(|(_, v)| v)
}

/// Some(Err) = wrong type
fn int(t: &Typed) -> Option<i128> {
    Some(match t {
        Typed::Int32(v) => *v as i128,
        Typed::Uint32(v) => *v as i128,
        Typed::Int64(v) => *v as i128,
        Typed::Uint64(v) => *v as i128,
        _ => return None,
    })
}

fn caps_of(s: &str) -> Vec<Capability> {
    s.split(',')
        .map(|x| x.trim())
        .filter_map(|x| CAPS.iter().find(|c| cap(c) == x).copied())
        .collect()
}

enum Ver {
    Good(Version),
    Odd,
    Bad,
}
fn ver_of(s: &str) -> Ver {
    // Major.Minor, decimal
    let t = s.trim_matches(|c| c == ' ' || c == '\t');
    let mut it = t.split('.');
    let (a, b, c) = (it.next().unwrap_or(""), it.next(), it.next());
    let canon = |x: &str| {
        x.parse::<u8>().ok().filter(|v| v.to_string() == x)
    };
    match (canon(a), b.and_then(canon), c) {
        (Some(a), Some(b), None) => Ver::Good(Version::new(a, b)),
        _ => {
            if t.is_empty() || !t.chars().all(|c| c.is_ascii_digit() || c == '.' || c == '+') {
                Ver::Bad
            } else {
                Ver::Odd
            }
        }
    }
}

pub fn parse(b: &[u8]) -> Verdict {
    let mut p = P { b, p: 0, open: false, loose: false };
    let ty = match p.u8() {
        Ok(t) => t,
        Err(e) => return Verdict::Reject(e),
    };
    match parse2(&mut p, ty) {
        Err(e) => Verdict::Reject(e),
        Ok(None) => Verdict::Open(ty),
        Ok(Some(f)) => {
            if p.open {
                Verdict::Open(ty)
            } else if p.loose {
                Verdict::Either(f)
            } else {
                Verdict::Frame(f)
            }
        }
    }
}

/// Ok(None): open
fn parse2(p: &mut P, ty: u8) -> R<Option<Frame>> {
    if ![T_UNSET, T_HHELLO, T_HDISC, T_NOTIFY, T_AHELLO, T_ADISC, T_ACK].contains(&ty) {
        return Err("frame type");
    }
    let fl = u32::from_be_bytes(p.take(4)?.try_into().unwrap());
    let sid = p.varint()?;
    let fid = p.varint()?;
    let fin = fl & FIN != 0;
    if fl & !(FIN | ABORT) != 0 {
        p.loose = true;
    }
    match ty {
        T_HHELLO | T_AHELLO | T_HDISC | T_ADISC => {
            if sid != 0 || fid != 0 {
                return Err("ids");
            }
            if !fin || fl & ABORT != 0 {
                // must be FIN and nothing else by the specification
                p.loose = true;
            }
        }
        T_NOTIFY | T_ACK => {
            if fid == 0 {
                return Err("frame id 0");
            }
        }
        _ => return Err("unset"),
    }
    match ty {
        T_HHELLO | T_AHELLO => {
            let kv = p.kvs()?;
            let vkey = if ty == T_HHELLO { "supported-versions" } else { "version" };
            let vs = match find(&kv, vkey) {
                Some(Typed::String(s)) => s.clone(),
                _ => return if p.open { Ok(None) } else { Err("version item") },
            };
            let mfs = match find(&kv, "max-frame-size").and_then(int) {
                Some(v) => v,
                _ => return if p.open { Ok(None) } else { Err("max-frame-size item") },
            };
            let cs = match find(&kv, "capabilities") {
                Some(Typed::String(s)) => caps_of(s),
                _ => return if p.open { Ok(None) } else { Err("capabilities item") },
            };
            if mfs < 0 {
                return Ok(None);
            }
            if mfs > u32::MAX as i128 {
                // beyond the UINT32 SPOP asks for: may be refused, or means "no smaller limit"
                p.loose = true;
            }
            let mfs = mfs.min(u32::MAX as i128) as u32;
            let mut versions = vec![];
            let list: Vec<&str> = if ty == T_HHELLO { vs.split(',').collect() } else { vec![&vs] };
            let mut bad = false;
            for v in list {
                match ver_of(v) {
                    Ver::Good(v) => versions.push(v),
                    Ver::Odd => return Ok(None),
                    Ver::Bad => bad = true,
                }
            }
            if bad {
                // nothing SPOP calls a version
                return if p.open { Ok(None) } else { Err("version text") };
            }
            if ty == T_AHELLO {
                if vs.trim() != vs {
                    p.loose = true;
                }
                return Ok(Some(Frame::AgentHello(AgentHello {
                    version: versions[0],
                    max_frame_size: mfs,
                    capabilities: cs,
                })));
            }
            let healthcheck = match find(&kv, "healthcheck") {
                None => None,
                Some(Typed::Boolean(b)) => Some(*b),
                Some(_) => return Ok(None),
            };
            let engine_id = match find(&kv, "engine-id") {
                None => None,
                Some(Typed::String(s)) => Some(s.clone()),
                Some(_) => return Ok(None),
            };
            Ok(Some(Frame::HaproxyHello(HaproxyHello {
                supported_versions: versions,
                max_frame_size: mfs,
                capabilities: cs,
                healthcheck,
                engine_id,
            })))
        }
        T_HDISC | T_ADISC => {
            let kv = p.kvs()?;
            let code = find(&kv, "status-code").and_then(int);
            let msg = match find(&kv, "message") {
                Some(Typed::String(s)) => Some(s.clone()),
                _ => None,
            };
            let (Some(code), Some(message)) = (code, msg) else { return Ok(None) };
            if code < 0 || code > u32::MAX as i128 {
                return Ok(None);
            }
            let d = Disconnect { status_code: code as u32, message };
            Ok(Some(if ty == T_HDISC { Frame::HaproxyDisconnect(d) } else { Frame::AgentDisconnect(d) }))
        }
        T_NOTIFY => {
            let mut messages = vec![];
            while p.more() {
                let name = p.str()?;
                let n = p.u8()?;
                let mut args = vec![];
                for _ in 0..n {
                    let k = p.str()?;
                    args.push((k, p.typed()?));
                }
                messages.push(Message { name, args });
            }
            if fl & ABORT != 0 {
                // an aborted notification: how a reader reports it is not a matter of the format
                p.loose = true;
            }
            Ok(Some(Frame::HaproxyNotify(HaproxyNotify {
                fragmented: !fin,
                stream_id: sid,
                frame_id: fid,
                messages,
            })))
        }
        _ => {
            let mut actions = vec![];
            while p.more() {
                let t = p.u8()?;
                if t != 1 && t != 2 {
                    return Err("action type");
                }
                let n = p.u8()?;
                if n != if t == 1 { 3 } else { 2 } {
                    return Err("action arguments");
                }
                let sc = p.u8()?;
                let scope = *SCOPES.iter().find(|s| scope(s) == sc).ok_or("scope")?;
                let name = p.str()?;
                actions.push(if t == 1 {
                    Action::SetVar { scope, name, value: p.typed()? }
                } else {
                    Action::UnsetVar { scope, name }
                });
            }
            Ok(Some(Frame::AgentAck(AgentAck {
                fragmented: !fin,
                aborted: fl & ABORT != 0,
                stream_id: sid,
                frame_id: fid,
                actions,
            })))
        }
    }
}

pub fn type_code(f: &Frame) -> u8 {
    match f {
        Frame::Unset => T_UNSET,
        Frame::HaproxyHello(_) => T_HHELLO,
        Frame::HaproxyDisconnect(_) => T_HDISC,
        Frame::HaproxyNotify(_) => T_NOTIFY,
        Frame::AgentHello(_) => T_AHELLO,
        Frame::AgentDisconnect(_) => T_ADISC,
        Frame::AgentAck(_) => T_ACK,
    }
}

/// Splits what a peer received into frames; the remainder is an incomplete frame.
pub fn split(b: &[u8]) -> (Vec<&[u8]>, &[u8]) {
    let mut v = vec![];
    let mut p = 0;
    while b.len() - p >= 4 {
        let n = u32::from_be_bytes(b[p..p + 4].try_into().unwrap()) as usize;
        if b.len() - p - 4 < n {
            break;
        }
        v.push(&b[p + 4..p + 4 + n]);
        p += 4 + n;
    }
    (v, &b[p..])
}
