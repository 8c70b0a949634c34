//! One run of one property: harness by harness, evidence, replays, known findings.
use crate::engine::*;
use std::collections::BTreeSet;
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;
use std::time::Instant;

pub struct Run {
    pub prop: String,
    pub tier: String,
    pub only: Option<String>,
    /// run other properties' harnesses with everything traced: (prefix, which)
    pub traced: Option<(&'static str, &'static [&'static str])>,
    mode: Mode,
    stats: Vec<Stats>,
    t0: Instant,
    seed: u64,
}
enum Mode {
    Explore,
    Replay { harness: String, choices: Vec<Choice>, seen: bool, bad: bool },
}

pub fn root() -> std::path::PathBuf {
    std::env::var_os("VERIF_DIR").map(Into::into).unwrap_or_else(|| "/verif".into())
}

static KNOWN_HIT: Mutex<BTreeSet<String>> = Mutex::new(BTreeSet::new());
static KNOWN: std::sync::OnceLock<Vec<(String, String, String)>> = std::sync::OnceLock::new();

/// lines `known: property=<id> key=<key> <text>` of known-findings.txt
fn known() -> &'static [(String, String, String)] {
    KNOWN.get_or_init(|| {
        let mut v = vec![];
        if let Ok(s) = std::fs::read_to_string(root().join("known-findings.txt")) {
            for l in s.lines() {
                if let Some(r) = l.strip_prefix("known: property=") {
                    let mut it = r.splitn(3, ' ');
                    let (p, k, t) = (it.next(), it.next(), it.next());
                    if let (Some(p), Some(k), Some(t)) = (p, k.and_then(|k| k.strip_prefix("key=")), t) {
                        v.push((p.into(), k.into(), t.into()));
                    }
                }
            }
        }
        v
    })
}

/// A violation that is acceptable only if the known-findings file lists it for this property.
pub fn known_finding(prop: &str, key: &str, msg: String) -> Res {
    if known().iter().any(|(p, k, _)| p == prop && k == key) {
        let mut h = KNOWN_HIT.lock().unwrap();
        if !h.contains(key) {
            h.insert(key.to_string());
        }
        Ok(())
    } else {
        Err(Violation(msg))
    }
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn write_replay(prop: &str, tier: &str, f: &Found) -> String {
    let dir = root().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{prop}-{}.txt", f.harness));
    let mut s = String::new();
    let _ = writeln!(s, "property {prop}\nharness {}\ntier {tier}", f.harness);
    let ch: Vec<String> = f.choices.iter().map(|c| format!("{}/{}", c.k, c.n)).collect();
    let _ = writeln!(s, "choices {}", ch.join(" "));
    let _ = writeln!(s, "# {}", f.msg.replace('\n', "\n# "));
    for n in &f.notes {
        let _ = writeln!(s, "# | {}", n.replace('\n', "\n# | "));
    }
    let _ = writeln!(s, "# re-run: {}/check.sh replay {}", root().display(), path.display());
    let _ = std::fs::write(&path, s);
    path.display().to_string()
}

impl Run {
    pub fn new(prop: &str, tier: &str) -> Run {
        let (p, t) = (prop.to_string(), tier.to_string());
        *HANG.lock().unwrap() = Some(Box::new(move |f: &Found| {
            let path = write_replay(&p, &t, f);
            println!("{}: {}", f.harness, f.msg);
            println!("VIOLATION property={p} replay={path}");
            write_evidence_raw(&p, &t, 1, &[], 0.0, 1);
        }));
        Run {
            prop: prop.into(),
            tier: tier.into(),
            only: None,
            traced: None,
            mode: Mode::Explore,
            stats: vec![],
            t0: Instant::now(),
            seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
        }
    }
    pub fn from_replay(f: &str) -> Run {
        let s = std::fs::read_to_string(f).expect("replay file");
        let get = |k: &str| {
            s.lines()
                .find_map(|l| l.strip_prefix(k).map(|r| r.trim().to_string()))
                .unwrap_or_default()
        };
        let choices = get("choices ")
            .split_whitespace()
            .map(|c| {
                let (k, n) = c.split_once('/').expect("choice");
                Choice { n: n.parse().unwrap(), k: k.parse().unwrap() }
            })
            .collect();
        let mut r = Run::new(&get("property "), &get("tier "));
        r.mode = Mode::Replay { harness: get("harness "), choices, seen: false, bad: false };
        r
    }
    pub fn thorough(&self) -> bool {
        self.tier == "thorough"
    }
    /// quick value / thorough value
    /// The bound when run again with tracing, the quick and the thorough one.
    pub fn q3<T>(&self, traced: T, q: T, t: T) -> T {
        match (self.thorough(), self.traced.is_some()) {
            (false, true) => traced,
            (false, false) | (true, true) => q,
            (true, false) => t,
        }
    }
    pub fn q<T>(&self, q: T, t: T) -> T {
        if self.thorough() {
            t
        } else {
            q
        }
    }
    /// Explores one harness; a violation ends the process.
    pub fn go<F>(&mut self, c: Cfg, body: F)
    where
        F: Fn(&mut Ctx) -> Res + Sync,
    {
        let mut c = c;
        let Some((pre, which)) = self.traced else { return self.one(c, body) };
        if which.contains(&c.name) {
            c.name = Box::leak(format!("{pre} {}", c.name).into_boxed_str());
            c.what = Box::leak(format!("traced at every level: {}", c.what).into_boxed_str());
            self.one(c, |c: &mut Ctx| {
                let r = catch_unwind(AssertUnwindSafe(|| body(c)));
                let m = match r {
                    Ok(Ok(())) => return Ok(()),
                    Ok(Err(v)) => v.0,
                    Err(p) if c.has_diverged() => std::panic::resume_unwind(p),
                    Err(_) => format!("panic: {}", verif_sched::take_panic().unwrap_or_default()),
                };
                // what goes wrong without tracing too is not for this property
                if crate::trace::silently(|| again(c, &body)) {
                    return Ok(());
                }
                Err(Violation(format!("only when traced: {m}")))
            })
        }
    }
    fn one<F>(&mut self, c: Cfg, body: F)
    where
        F: Fn(&mut Ctx) -> Res + Sync,
    {
        let th = self.thorough();
        let mut c = c;
        if verif_sched::edges() {
            c.max = c.max.min(std::time::Duration::from_secs(60));
        }
        if let Mode::Replay { harness, choices, seen, bad } = &mut self.mode {
            if harness == c.name {
                *seen = true;
                let (r, notes) = replay(choices.clone(), th, body);
                for n in notes {
                    println!("  {n}");
                }
                match r {
                    One::Ok => println!("{}: holds", c.name),
                    One::Bad(m) => {
                        *bad = true;
                        println!("{}: violated: {m}", c.name)
                    }
                    One::Diverged(m) => println!("{}: the recorded choices do not fit: {m}", c.name),
                }
            }
            return;
        }
        if let Some(o) = &self.only {
            if o != c.name {
                return;
            }
        }
        match explore(&c, th, body) {
            Outcome::Ok(st) => {
                println!(
                    "{}: ok, {} executions, {} states, {} transitions, {} cases, depth {}, {:.1} s{}",
                    st.name,
                    st.executions,
                    st.states,
                    st.edges,
                    st.evals,
                    st.max_depth,
                    st.wall,
                    if st.complete { "" } else { " (time limit: not exhausted)" }
                );
                self.stats.push(st);
            }
            Outcome::Violated(f, st) => {
                self.stats.push(st);
                println!("{}: {}", f.harness, f.msg);
                for n in &f.notes {
                    println!("  {n}");
                }
                let path = write_replay(&self.prop, &self.tier, &f);
                println!("VIOLATION property={} replay={path}", self.prop);
                write_evidence_raw(&self.prop, &self.tier, self.seed, &self.stats, self.t0.elapsed().as_secs_f64(), 1);
                std::process::exit(1);
            }
            Outcome::Error(e) => {
                eprintln!("machinery error: {e}");
                std::process::exit(2);
            }
        }
    }
    pub fn finish(self) -> ! {
        for (p, k, t) in known() {
            if *p == self.prop && KNOWN_HIT.lock().unwrap().contains(k) {
                println!("KNOWN-FINDING: property={p} {k}: {t}");
            }
        }
        write_evidence_raw(&self.prop, &self.tier, self.seed, &self.stats, self.t0.elapsed().as_secs_f64(), 0);
        if self.stats.is_empty() {
            eprintln!("machinery error: no harness ran");
            std::process::exit(2);
        }
        std::process::exit(0)
    }
    pub fn finish_replay(self) -> ! {
        if let Mode::Replay { seen, bad, harness, .. } = &self.mode {
            if !seen {
                eprintln!("no harness {harness}");
                std::process::exit(2);
            }
            std::process::exit(*bad as i32)
        }
        std::process::exit(2)
    }
}

fn write_evidence_raw(prop: &str, tier: &str, seed: u64, st: &[Stats], wall: f64, viol: u32) {
    let dir = root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let sum = |f: &dyn Fn(&Stats) -> u64| st.iter().map(f).sum::<u64>();
    let mut s = String::new();
    let _ = write!(
        s,
        "{{\n \"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"model_checking\",\n",
        esc(prop),
        esc(if tier == "thorough" { "thorough" } else { "quick" }),
        seed
    );
    let _ = write!(
        s,
        " \"coverage\": {{\n  \"states\": {}, \"transitions\": {}, \"traces_validated_against_impl\": {},\n  \"evaluations\": {}, \"choice_points\": {}, \"distinct_outcomes\": {},\n  \"exhaustive\": {},\n",
        sum(&|s| s.states),
        sum(&|s| s.edges),
        sum(&|s| s.executions),
        sum(&|s| s.evals),
        sum(&|s| s.choice_points),
        sum(&|s| s.outcomes),
        !st.is_empty() && st.iter().all(|s| s.complete),
    );
    let _ = write!(s, "  \"harnesses\": [\n");
    for (i, h) in st.iter().enumerate() {
        let _ = write!(
            s,
            "   {{\"name\": {}, \"explores\": {}, \"executions_of_the_real_code\": {}, \"cases\": {}, \"states\": {}, \"transitions\": {}, \"choice_points\": {}, \"max_depth\": {}, \"deviation_bound\": {}, \"complete_within_bound\": {}, \"wall_s\": {:.2}}}{}\n",
            esc(&h.name),
            esc(&h.what),
            h.executions,
            h.evals,
            h.states,
            h.edges,
            h.choice_points,
            h.max_depth,
            if h.bound == u32::MAX { "null".to_string() } else { h.bound.to_string() },
            h.complete,
            h.wall,
            if i + 1 < st.len() { "," } else { "" }
        );
    }
    let _ = write!(s, "  ],\n  \"samples\": [");
    let mut first = true;
    for h in st {
        for x in h.samples.iter().take(2) {
            let _ = write!(s, "{}{}", if first { "\n   " } else { ",\n   " }, esc(x));
            first = false;
        }
    }
    let _ = write!(
        s,
        "]\n }},\n \"assumptions\": [\"bounds as listed per harness; tokio, dashmap and std behave as their pinned versions do, instrumented only with scheduling points\"],\n \"wall_s\": {wall:.2}, \"violations\": {}\n}}\n",
        viol
    );
    let _ = std::fs::write(dir.join(format!("{prop}.json")), s);
}
