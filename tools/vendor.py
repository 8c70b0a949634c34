#!/usr/bin/env python3
"""Make the instrumented copies of dashmap and tokio the checker links against.

Copies the pinned crates from the offline cargo registry to /verif/build/vendor and inserts calls
to the verif-sched crate (scheduling points, select! bias, accept faults).  Idempotent: does
nothing when the stamp matches.  Every edit must apply exactly the stated number of times.
"""
import glob, hashlib, os, re, shutil, sys, tarfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(ROOT, "build", "vendor")
CRATES = {"dashmap": "6.2.1", "tokio": "1.54.1"}
HOME = os.environ.get("CARGO_HOME", "/root/.cargo")


def sub(path, old, new, count=1, regex=False):
    s = open(path).read()
    n = len(re.findall(old, s, re.S)) if regex else s.count(old)
    if n != count:
        sys.exit(f"vendor.py: {path}: expected {count} x {old!r}, found {n}")
    s = re.sub(old, new, s, flags=re.S) if regex else s.replace(old, new)
    open(path, "w").write(s)


def fetch(name, ver, dest):
    for d in glob.glob(f"{HOME}/registry/src/*/{name}-{ver}"):
        shutil.copytree(d, dest, ignore=shutil.ignore_patterns("tests", "benches", "examples", ".cargo-ok", ".cargo_vcs_info.json"))
        return
    for f in glob.glob(f"{HOME}/registry/cache/*/{name}-{ver}.crate"):
        with tarfile.open(f) as t:
            t.extractall(os.path.dirname(dest), filter="data")
        os.rename(os.path.join(os.path.dirname(dest), f"{name}-{ver}"), dest)
        return
    sys.exit(f"vendor.py: {name}-{ver} not in the cargo registry")


def add_dep(cargo):
    s = open(cargo).read()
    # drop test/bench/example targets: their files are not copied
    s = re.sub(r"\n\[\[(test|bench|example)\]\]\n(?:(?!\n\[).)*", "\n", s, flags=re.S)
    s += f'\n[dependencies.verif-sched]\npath = "{ROOT}/sched"\n'
    open(cargo, "w").write(s)


LOCK_RS = '''use core::sync::atomic::AtomicUsize;

pub type RwLock<T> = lock_api::RwLock<RawRwLock, T>;
pub type RwLockReadGuard<'a, T> = lock_api::RwLockReadGuard<'a, RawRwLock, T>;
pub type RwLockWriteGuard<'a, T> = lock_api::RwLockWriteGuard<'a, RawRwLock, T>;

pub struct RawRwLock {
    state: AtomicUsize,
}

unsafe impl lock_api::RawRwLock for RawRwLock {
    #[allow(clippy::declare_interior_mutable_const)]
    const INIT: Self = Self { state: AtomicUsize::new(0) };
    type GuardMarker = lock_api::GuardNoSend;
    fn try_lock_exclusive(&self) -> bool {
        verif_sched::point("try_lock");
        verif_sched::rw_try_exclusive(&self.state)
    }
    fn lock_exclusive(&self) {
        verif_sched::rw_lock_exclusive(&self.state)
    }
    unsafe fn unlock_exclusive(&self) {
        verif_sched::rw_unlock_exclusive(&self.state)
    }
    fn try_lock_shared(&self) -> bool {
        verif_sched::point("try_lock_shared");
        verif_sched::rw_try_shared(&self.state)
    }
    fn lock_shared(&self) {
        verif_sched::rw_lock_shared(&self.state)
    }
    unsafe fn unlock_shared(&self) {
        verif_sched::rw_unlock_shared(&self.state)
    }
}

unsafe impl lock_api::RawRwLockDowngrade for RawRwLock {
    unsafe fn downgrade(&self) {
        verif_sched::rw_downgrade(&self.state)
    }
}
'''


def dashmap(d):
    add_dep(f"{d}/Cargo.toml")
    open(f"{d}/src/lock.rs", "w").write(LOCK_RS)
    for f in ("lib.rs", "read_only.rs", "set.rs", "iter.rs"):
        p = f"{d}/src/{f}"
        s = open(p).read()
        n = s.count("use std::collections::hash_map::RandomState;")
        s = s.replace("use std::collections::hash_map::RandomState;", "use verif_sched::DetState as RandomState;")
        if f == "lib.rs" and n < 1:
            sys.exit("vendor.py: dashmap RandomState import not found")
        open(p, "w").write(s)
    sub(f"{d}/src/lib.rs", r"fn default_shard_amount\(\) -> usize \{.*?\n\}\n",
        "fn default_shard_amount() -> usize {\n    verif_sched::shards()\n}\n", regex=True)


def tokio(d):
    add_dep(f"{d}/Cargo.toml")
    sub(f"{d}/src/macros/support.rs", "crate::runtime::context::thread_rng_n(n)",
        "match verif_sched::select_start(n) { Some(k) => k, None => crate::runtime::context::thread_rng_n(n) }")
    lst = f"{d}/src/net/tcp/listener.rs"
    sub(lst, ".async_io(Interest::READABLE, || self.io.accept())",
        ".async_io(Interest::READABLE, || match verif_sched::accept_fault() { Some(e) => Err(e), None => self.io.accept() })")
    sub(lst, "match self.io.accept() {",
        "match match verif_sched::accept_fault() { Some(e) => Err(e), None => self.io.accept() } {")
    ch = f"{d}/src/sync/mpsc/chan.rs"
    for sig, lab in (
        ("pub(crate) fn send(&self, value: T) {", "mpsc.send"),
        ("pub(crate) fn recv(&mut self, cx: &mut Context<'_>) -> Poll<Option<T>> {", "mpsc.recv"),
        ("pub(crate) fn try_recv(&mut self) -> Result<T, TryRecvError> {", "mpsc.try_recv"),
        ("pub(crate) fn close(&mut self) {", "mpsc.close"),
    ):
        sub(ch, sig, f'{sig}\n        verif_sched::point("{lab}");')
    sub(ch, "impl<T, S> Drop for Tx<T, S> {\n    fn drop(&mut self) {",
        'impl<T, S> Drop for Tx<T, S> {\n    fn drop(&mut self) {\n        verif_sched::point("mpsc.drop_tx");')
    on = f"{d}/src/sync/oneshot.rs"
    sub(on, "pub fn send(mut self, t: T) -> Result<(), T> {", 'pub fn send(mut self, t: T) -> Result<(), T> {\n        verif_sched::point("oneshot.send");')
    sub(on, "pub fn try_recv(&mut self) -> Result<T, TryRecvError> {", 'pub fn try_recv(&mut self) -> Result<T, TryRecvError> {\n        verif_sched::point("oneshot.try_recv");')


def main():
    h = hashlib.sha256(open(os.path.abspath(__file__), "rb").read() + ROOT.encode()).hexdigest()
    stamp = os.path.join(OUT, "stamp")
    if os.path.exists(stamp) and open(stamp).read() == h:
        return
    shutil.rmtree(OUT, ignore_errors=True)
    os.makedirs(OUT)
    for name, ver in CRATES.items():
        d = os.path.join(OUT, name)
        fetch(name, ver, d)
        {"dashmap": dashmap, "tokio": tokio}[name](d)
    open(stamp, "w").write(h)


main()
