//! A tracing subscriber that looks at everything, switched per thread.
use std::cell::Cell;
use std::fmt::{self, Write};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Once;
use tracing::field::{Field, Visit};
use tracing::span::{Attributes, Id, Record};
use tracing::subscriber::Interest;
use tracing::{Event, Level, Metadata, Subscriber};

static INSTALLED: Once = Once::new();
/// values formatted so far
static SEEN: AtomicU64 = AtomicU64::new(0);
thread_local! {
    static MUTE: Cell<bool> = const { Cell::new(false) };
    static LEVEL: Cell<u8> = const { Cell::new(5) };
}

struct All;
struct Count(u64);
impl Write for Count {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.0 += s.len() as u64;
        Ok(())
    }
}
impl Visit for Count {
    fn record_debug(&mut self, _: &Field, v: &dyn fmt::Debug) {
        let _ = write!(self, "{v:?}");
        let _ = write!(self, "{v:#?}");
        SEEN.fetch_add(1, Ordering::Relaxed);
    }
}
fn rank(l: &Level) -> u8 {
    match *l {
        Level::ERROR => 1,
        Level::WARN => 2,
        Level::INFO => 3,
        Level::DEBUG => 4,
        Level::TRACE => 5,
    }
}
impl Subscriber for All {
    fn register_callsite(&self, _: &'static Metadata<'static>) -> Interest {
        Interest::sometimes()
    }
    fn enabled(&self, m: &Metadata<'_>) -> bool {
        m.target().starts_with("haproxy") && !MUTE.try_with(|m| m.get()).unwrap_or(true) && rank(m.level()) <= LEVEL.try_with(|l| l.get()).unwrap_or(5)
    }
    fn new_span(&self, a: &Attributes<'_>) -> Id {
        a.record(&mut Count(0));
        static N: AtomicU64 = AtomicU64::new(1);
        Id::from_u64(N.fetch_add(1, Ordering::Relaxed))
    }
    fn record(&self, _: &Id, v: &Record<'_>) {
        v.record(&mut Count(0));
    }
    fn record_follows_from(&self, _: &Id, _: &Id) {}
    fn event(&self, e: &Event<'_>) {
        e.record(&mut Count(0));
    }
    fn enter(&self, _: &Id) {}
    fn exit(&self, _: &Id) {}
}

/// Listens at every level from now on, wherever it is not muted.
pub fn install() {
    INSTALLED.call_once(|| tracing::subscriber::set_global_default(All).expect("another subscriber is there"));
}
pub fn silently<T>(f: impl FnOnce() -> T) -> T {
    struct Back(bool);
    impl Drop for Back {
        fn drop(&mut self) {
            MUTE.with(|m| m.set(self.0));
        }
    }
    let _b = Back(MUTE.with(|m| m.replace(true)));
    f()
}
/// 0 (nothing) to 5 (everything)
pub fn at<T>(level: u8, f: impl FnOnce() -> T) -> T {
    struct Back(u8);
    impl Drop for Back {
        fn drop(&mut self) {
            LEVEL.with(|m| m.set(self.0));
        }
    }
    let _b = Back(LEVEL.with(|m| m.replace(level)));
    f()
}
pub fn seen() -> u64 {
    SEEN.load(Ordering::Relaxed)
}
