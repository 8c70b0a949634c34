//! C11, C12: putting fragments together.
use crate::drv::{block, preemptions, some_merge, threads, Sh};
use crate::engine::*;
use crate::p_codec::{ack, msg, notify};
use crate::run::Run;
use crate::{ensure, fail};
use haproxy_spop::{Action, AsyncHandler, Error, Frame, Message, Reassembly, Scope, Typed};
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};

type Key = (u64, u64);

/// One table in one of the three ways it can be driven.
enum T {
    Raw(Reassembly<u32>),
    Msgs(Reassembly<Message>),
    Acts(Reassembly<Action>),
}
fn m_of(i: u32) -> Message {
    msg(&format!("m{i}"), &[("a", Typed::Uint32(i))])
}
fn a_of(i: u32) -> Action {
    Action::SetVar { scope: Scope::Request, name: format!("v{i}"), value: Typed::Uint32(i) }
}
const WRONG: usize = 5;
impl T {
    fn new(k: usize) -> T {
        match k {
            0 => T::Raw(Default::default()),
            1 => T::Msgs(Default::default()),
            _ => T::Acts(Default::default()),
        }
    }
    fn feed(&mut self, frag: bool, k: Key, items: &[u32], aborted: bool) -> Result<Option<Vec<u32>>, String> {
        match self {
            T::Raw(r) => r.reassemble(frag, k.0, k.1, items.to_vec()).map_err(|e| format!("{e:?}")),
            T::Msgs(r) => {
                let f = notify(frag, k.0, k.1, items.iter().map(|i| m_of(*i)).collect());
                let r = block(r.handle_frame(f)).map_err(|s| format!("{s:?}"))?.map_err(|e: Error| format!("{e:?}"))?;
                Ok(r.map(|v| v.iter().map(|m| match (&m.args[..], m.name.strip_prefix('m')) {
                    ([(a, Typed::Uint32(i))], Some(n)) if a == "a" && n == i.to_string() => *i,
                    _ => u32::MAX,
                }).collect()))
            }
            T::Acts(r) => {
                let f = ack(frag, aborted, k.0, k.1, items.iter().map(|i| a_of(*i)).collect());
                let r = block(r.handle_frame(f)).map_err(|s| format!("{s:?}"))?.map_err(|e: Error| format!("{e:?}"))?;
                Ok(r.map(|v| v.iter().map(|a| match a {
                    Action::SetVar { scope: Scope::Request, name, value: Typed::Uint32(i) } if *name == format!("v{i}") => *i,
                    _ => u32::MAX,
                }).collect()))
            }
        }
    }
    /// Feeds a frame of the wrong kind; true if it was refused.
    fn wrong(&mut self, n: usize, k: Key) -> bool {
        let f = match n {
            0 => Frame::haproxy_disconnect(Error::Normal, "x"),
            1 => Frame::agent_disconnect(Error::Normal, "x"),
            2 => Frame::AgentHello(haproxy_spop::AgentHello { version: haproxy_spop::Version::V2_0, max_frame_size: 16380, capabilities: vec![] }),
            3 => Frame::Unset,
            _ => match self {
                T::Msgs(_) => ack(true, false, k.0, k.1, vec![a_of(7777)]),
                _ => notify(true, k.0, k.1, vec![m_of(7777)]),
            },
        };
        match self {
            T::Raw(_) => true,
            // the other side's leaving is the normal end, anything else is not
            T::Msgs(r) => matches!(block(r.handle_frame(f)), Ok(Err(e)) if (e == Error::Normal) == (n == 0)),
            T::Acts(r) => matches!(block(r.handle_frame(f)), Ok(Err(e)) if (e == Error::Normal) == (n == 1)),
        }
    }
}

#[derive(Default)]
struct Model(BTreeMap<Key, Vec<u32>>);
impl Model {
    fn feed(&mut self, frag: bool, k: Key, items: &[u32]) -> Option<Vec<u32>> {
        let v = self.0.entry(k).or_default();
        v.extend(items);
        if frag {
            None
        } else {
            self.0.remove(&k)
        }
    }
}

struct Pair {
    t: T,
    m: Model,
    next: u32,
    /// items repeat after so many
    pool: u32,
}
impl Pair {
    fn new(mode: usize) -> Pair {
        Pair { t: T::new(mode), m: Model::default(), next: 0, pool: u32::MAX }
    }
    fn op(&mut self, c: &Sh, frag: bool, k: Key, n: usize, aborted: bool) -> Res {
        let items: Vec<u32> = (0..n as u32).map(|i| (self.next + i) % self.pool).collect();
        self.next += n as u32;
        c.note(|| format!("{} {k:?} {items:?}", if frag { "fragment" } else { "final" }));
        let want = self.m.feed(frag, k, &items);
        let got = self.t.feed(frag, k, &items, aborted);
        match got {
            Err(e) => fail!("a fragment for {k:?} was refused: {e}"),
            Ok(g) => ensure!(g == want, "the {} fragment of {k:?} yielded {g:?}, expected {want:?}", if frag { "non-final" } else { "final" }),
        }
        Ok(())
    }
    fn drain(&mut self, c: &Sh) -> Res {
        let ks: Vec<Key> = self.m.0.keys().copied().collect();
        for k in ks {
            self.op(c, false, k, 1, false)?;
        }
        Ok(())
    }
}

pub fn c11(r: &mut Run) {
    let depth = r.q(5usize, 6);
    r.go(cfg("sequences", "every sequence of up to 5 (thorough: 6) calls over 3 keys: final or not, 0, 1 or 2 items, or a frame of a wrong kind; on the table itself and through notify and ack frames; then every pending key is completed"), |c| {
        let mode = c.choose(3);
        let sh = Sh::new(c);
        let keys: [Key; 3] = [(1, 1), (1, 2), (2, 1)];
        let mut p = Pair::new(mode);
        for i in 0..depth {
            let n = if mode == 0 { 18 } else if i < 2 { 18 + WRONG } else { 19 };
            let k = sh.choose(n + 1);
            if k == 0 {
                break;
            }
            let k = k - 1;
            if k >= 18 {
                let w = if i < 2 { k - 18 } else { 4 };
                ensure!(p.t.wrong(w, keys[0]), "a frame of the wrong kind was accepted, or refused as the normal end, or the other side's leaving was refused as an error");
            } else {
                // keys may be used in order of first use only
                p.op(&sh, k % 2 == 0, keys[k / 6], k / 2 % 3, k % 5 == 0)?;
            }
            sh.state(&(mode, i, &p.m.0));
        }
        p.drain(&sh)?;
        sh.eval(1);
        Ok(())
    });
    let depth = r.q(4usize, 5);
    r.go(cfg("repeats", "every sequence of up to 4 (thorough: 5) calls over 2 keys with 0 to 3 items that are all equal or repeat after two"), |c| {
        let mode = c.choose(3);
        let pool = 1 + c.choose(2) as u32;
        let sh = Sh::new(c);
        let keys: [Key; 2] = [(1, 1), (1, 2)];
        let mut p = Pair::new(mode);
        p.pool = pool;
        for i in 0..depth {
            let k = sh.choose(17);
            if k == 0 {
                break;
            }
            let k = k - 1;
            p.op(&sh, k % 2 == 0, keys[k / 8], k / 2 % 4, k % 3 == 0)?;
            sh.state(&(mode, pool, i, &p.m.0));
        }
        p.drain(&sh)?;
        sh.eval(1);
        Ok(())
    });
    r.go(cfg("keys", "two notifications interleaved in every order, for every pair of (stream id, frame id) drawn from 15 boundary values each"), |c| {
        let vals: Vec<u64> = vec![1, 2, 0, 239, 240, 255, 256, 65535, 65536, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, 1 << 33, 1 << 62, (1 << 63) + 1, u64::MAX - 1, u64::MAX];
        let mode = c.choose(3);
        let a = (*c.of(&vals), *c.of(&vals));
        let order = c.choose(6);
        let sh = Sh::new(c);
        for s in &vals {
            for f in &vals {
                let b = (*s, *f);
                if a == b {
                    continue;
                }
                let mut p = Pair::new(mode);
                // a a A / b B merged
                let seqs = [[0, 0, 0, 1, 1], [0, 1, 0, 0, 1], [0, 1, 0, 1, 0], [1, 0, 0, 0, 1], [1, 0, 0, 1, 0], [0, 0, 1, 0, 1]];
                let (mut na, mut nb) = (0, 0);
                for x in seqs[order] {
                    if x == 0 {
                        na += 1;
                        p.op(&sh, na < 3, a, 1, false)?;
                    } else {
                        nb += 1;
                        p.op(&sh, nb < 2, b, 2, false)?;
                    }
                }
                p.op(&sh, false, a, 1, false)?;
                p.op(&sh, false, b, 0, false)?;
                sh.eval(1);
            }
        }
        sh.state(&(mode, a, order));
        Ok(())
    });
    r.go(cfg("contents", "19 message lists and 14 action lists that something careless might tidy up, and every ordered pair (thorough: triple) of what occurs in them, cut into two and three fragments at every place, with a fragment of another notification between them; acks with every combination of abort flags"), |c| {
        let triples = c.thorough();
        let acts = c.flag();
        let part = c.choose(16);
        let sh = Sh::new(c);
        let mut n = 0;
        macro_rules! run {
            ($ty:ty, $lists:expr, $frame:expr, $masks:expr) => {
                for (no, cut) in crate::svc::cuts(&$lists, triples).iter().enumerate().filter(|(no, _)| no % 16 == part) {
                    for mask in 0..(if no < 400 || triples { $masks } else { 1 }) {
                        let mut r = Reassembly::<$ty>::default();
                        let mut feed = |frag: bool, id: u64, l: &[$ty], ab: bool| -> Result<Option<Vec<$ty>>, Violation> {
                            match block(r.handle_frame($frame(frag, ab, 3, id, l.to_vec()))) {
                                Ok(Ok(x)) => Ok(x),
                                x => Err(Violation(format!("a fragment of {cut:?} is refused: {x:?}"))),
                            }
                        };
                        let (mut so_far, mut beside) = (vec![], vec![]);
                        for (i, l) in cut.iter().enumerate() {
                            let last = i + 1 == cut.len();
                            so_far.extend_from_slice(l);
                            let x = feed(!last, 1, l, mask >> i & 1 == 1)?;
                            ensure!(x == last.then(|| so_far.clone()), "fragment {i} of {cut:?} (abort flags {mask:b}) yields {x:?}");
                            // the other one gets the same fragments in the opposite order
                            let l = &cut[cut.len() - 1 - i];
                            beside.extend_from_slice(l);
                            let x = feed(true, 2, l, false)?;
                            ensure!(x == None, "an unfinished notification beside {cut:?} yields {x:?}");
                        }
                        let x = feed(false, 2, &[], false)?;
                        ensure!(x.as_ref() == Some(&beside), "a notification of {beside:?} in {} fragments yields {x:?}", cut.len() + 1);
                        n += 1;
                    }
                }
            };
        }
        if acts {
            run!(Action, crate::svc::odd_actions(), |f, ab, s, k, l| ack(f, ab, s, k, l), 8);
        } else {
            run!(Message, crate::svc::odd_messages(), |f, _ab, s, k, l| notify(f, s, k, l), 1);
        }
        sh.state(&(acts, part, n));
        sh.eval(n);
        Ok(())
    });
    let (len, many) = r.q((300usize, 70000usize), (5000, 200_000));
    r.go(cfg("long", "one notification of n fragments for every n up to 300 (thorough: 5000), with empty fragments mixed in; k notifications pending at once for k up to 70000 (thorough: 200000) completed first to last, last to first and by halves, then reused"), |c| {
        let mode = c.choose(3);
        let sh = Sh::new(c);
        if c.flag() {
            let per = c.choose(3);
            let blk = c.choose(16);
            for n in (1..=len).filter(|n| n % 16 == blk) {
                if n > 600 && n % 97 != 0 && n != len {
                    continue;
                }
                let mut p = Pair::new(mode);
                for i in 0..n {
                    p.op(&sh, i + 1 < n, (5, 9), if per == 2 { i % 3 } else { per }, false)?;
                    if i == n / 2 {
                        p.op(&sh, true, (9, 5), 1, false)?;
                    }
                }
                p.drain(&sh)?;
                p.op(&sh, false, (5, 9), 1, false)?;
                sh.eval(1);
                sh.state(&(mode, per, n));
            }
        } else {
            let order = c.choose(3);
            let by = c.choose(3);
            for k in [1usize, 2, 10, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 1024, 1025, many] {
                let key = |i: usize| match by {
                    0 => (i as u64, 1),
                    1 => (1, i as u64),
                    _ => ((i / 7) as u64, (i % 7) as u64 + 1),
                };
                let mut p = Pair::new(mode);
                for round in 0..2 {
                    for i in 0..k {
                        p.op(&sh, true, key(i), 1 + (i + round) % 2, false)?;
                    }
                    for j in 0..k {
                        let i = match order {
                            0 => j,
                            1 => k - 1 - j,
                            _ => if j % 2 == 0 { j / 2 } else { k - 1 - j / 2 },
                        };
                        p.op(&sh, false, key(i), j % 2, false)?;
                    }
                }
                sh.eval(1);
                sh.state(&(mode, order, by, k));
            }
        }
        Ok(())
    });
    let sizes: Vec<usize> = r.q(vec![0, 1, 2, 255, 256, 1000, 1025, 4097, 65_537], vec![0, 1, 2, 63, 255, 256, 1000, 1025, 4097, 10_001, 65_537]);
    r.go(cfg("big", "every three fragments of one notification with up to 65537 items each, another's fragment between them or not; then the ids are used again"), |c| {
        let mode = c.choose(3);
        let n = [*c.of(&sizes), *c.of(&sizes), *c.of(&sizes)];
        let sh = Sh::new(c);
        let mut p = Pair::new(mode);
        let other = sh.choose(2) == 1;
        for (i, n) in n.iter().enumerate() {
            p.op(&sh, i < 2, (5, 9), *n, false)?;
            if other {
                p.op(&sh, i < 2, (5, 8), 1, false)?;
            }
        }
        p.op(&sh, false, (5, 9), 2, false)?;
        sh.eval(1);
        sh.state(&(mode, n));
        Ok(())
    });
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
struct Op {
    key: usize,
    frag: bool,
}

fn program(c: &mut Ctx, lens: &[usize], keys: usize) -> Vec<Vec<Op>> {
    lens.iter()
        .map(|n| {
            (0..*n)
                .map(|_| {
                    let k = c.choose(keys * 2);
                    Op { key: k / 2, frag: k % 2 == 0 }
                })
                .collect()
        })
        .collect()
}

type Log = Arc<Mutex<Vec<(usize, usize, Result<Option<Vec<u32>>, String>)>>>;

fn items(t: usize, i: usize) -> Vec<u32> {
    vec![(t * 100 + i * 10) as u32, (t * 100 + i * 10 + 1) as u32]
}

fn concurrent(c: &mut Ctx, lens: &[usize], keys: &[Key], shards: usize, pre: usize) -> Res {
    let prog = program(c, lens, keys.len());
    // threads with equal length programs are interchangeable
    for w in prog.windows(2) {
        if w[0].len() == w[1].len() {
            let key = |p: &Vec<Op>| p.iter().map(|o| o.key * 2 + o.frag as usize).collect::<Vec<_>>();
            if key(&w[0]) > key(&w[1]) {
                return Ok(());
            }
        }
    }
    c.note(|| format!("{prog:?}"));
    verif_sched::set_shards(shards);
    let table: Arc<Reassembly<u32>> = Arc::default();
    let mut model = Model::default();
    // fragments already there
    for i in 0..pre {
        let it = vec![9000 + i as u32];
        let _ = table.reassemble(true, keys[i % keys.len()].0, keys[i % keys.len()].1, it.clone());
        model.feed(true, keys[i % keys.len()], &it);
    }
    let base: Vec<(Key, Vec<u32>)> = model.0.into_iter().collect();
    let log: Log = Arc::default();
    let bodies: Vec<Box<dyn FnOnce() + Send>> = prog
        .iter()
        .enumerate()
        .map(|(t, p)| {
            let (table, log, p, keys) = (table.clone(), log.clone(), p.clone(), keys.to_vec());
            Box::new(move || {
                for (i, o) in p.iter().enumerate() {
                    let k = keys[o.key];
                    let r = table.reassemble(o.frag, k.0, k.1, items(t, i)).map_err(|e| format!("{e:?}"));
                    log.lock().unwrap().push((t, i, r));
                }
            }) as Box<dyn FnOnce() + Send>
        })
        .collect();
    threads(c, bodies)?;
    // what is left
    let left: Vec<_> = keys.iter().map(|k| table.reassemble(false, k.0, k.1, vec![]).map_err(|e| format!("{e:?}"))).collect();
    let log = log.lock().unwrap();
    let mut res: Vec<Vec<Option<Result<Option<Vec<u32>>, String>>>> = prog.iter().map(|p| vec![None; p.len()]).collect();
    for (t, i, r) in log.iter() {
        res[*t][*i] = Some(r.clone());
    }
    c.state(&(&prog, &*log, &left));
    let ok = some_merge(lens, &mut |seq| {
        let mut m = Model(base.iter().cloned().collect());
        let mut at = vec![0; lens.len()];
        for &t in seq {
            let i = at[t];
            at[t] += 1;
            let o = prog[t][i];
            let want = m.feed(o.frag, keys[o.key], &items(t, i));
            if res[t][i] != Some(Ok(want)) {
                return false;
            }
        }
        keys.iter().zip(&left).all(|(k, l)| *l == Ok(Some(m.feed(false, *k, &[]).unwrap_or_default())))
    });
    ensure!(ok, "programs {prog:?} on keys {keys:?}: results {res:?}, left {left:?} are those of no sequential order");
    Ok(())
}

pub fn c12(r: &mut Run) {
    let (b2, b3) = r.q((4u32, 3u32), (u32::MAX, u32::MAX));
    let b = r.q(3u32, 5);
    let keysets: [[Key; 2]; 4] = [[(1, 1), (1, 2)], [(1, 1), (2, 1)], [(7, 1 << 32), (7, 1)], [(3, 4), (4, 3)]];
    r.go(cfg("two threads", "every pair of programs of 2 calls each (fragment or final, 2 keys) on a fresh or a half-filled table; every interleaving of their synchronisation operations with up to 4 preemptions (thorough: all)").bound(preemptions(b2)), |c| {
        let ks = *c.of(&keysets);
        let shards = [2, 4][c.choose(2)];
        let pre = c.choose(3);
        concurrent(c, &[2, 2], &ks, shards, pre)
    });
    r.go(cfg("two threads, three calls", "every pair of programs of 3 calls each on one table, 2 keys, up to 3 preemptions (thorough: all)").bound(preemptions(b3)), |c| {
        let ks = keysets[0];
        let pre = if c.thorough() { c.choose(2) } else { 0 };
        concurrent(c, &[3, 3], &ks, 4, pre)
    });
    r.go(cfg("three threads", "every triple of programs of 2, 1 and 1 (thorough: 2, 2 and 1) calls, 2 keys, up to 3 (thorough: 5) preemptions").bound(preemptions(b)), |c| {
        let ks = keysets[0];
        let l: &[usize] = if c.thorough() { &[2, 2, 1] } else { &[2, 1, 1] };
        concurrent(c, l, &ks, 4, 0)
    });
}
