#!/bin/bash
# check.sh <PROPERTY>      decide one property on /repo's working tree (tier: $VERIF_TIER, default quick)
# check.sh replay <file>   re-run a recorded violation
# check.sh build           only build
# exit 0: held on everything explored; 1: VIOLATION; anything else: the check itself failed
cd "$(dirname "$(realpath "$0")")" || exit 2
export VERIF_DIR=$PWD HOME=/root
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=1
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET
target=$PWD/build/target
# The scheduling points are in dashmap and tokio.  Where the code synchronises in another way, the
# thread checks use a build that has a point at every branch.
prop=$1
[ "$1" = replay ] && prop=$(sed -n 's/^property //p' "$2" | head -1)
case "$prop" in
  C12|C14|C15|C16)
    if find /repo/spop/src /repo/spoa/src -name '*.rs' -print0 | xargs -0 python3 tools/unhooked.py; then
      target=$PWD/build/target-branches
      export RUSTC_WRAPPER=$PWD/tools/rustc-branches.sh
    fi ;;
esac
export CARGO_TARGET_DIR=$target
mkdir -p build evidence replays
(
  flock 9
  python3 tools/vendor.py || exit 2
  # cargo looks at time stamps only: forget the library crates when their content changed
  h=$(cd /repo && find Cargo.toml spop spoa -type f -not -path '*/target/*' -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
  if [ "$(cat "$target.sha" 2>/dev/null)" != "$h" ]; then
    find "$target"/debug/.fingerprint -maxdepth 1 \( -name 'haproxy-spop-*' -o -name 'haproxy-spoa-*' \) -exec rm -r {} + 2>/dev/null
    rm -f "$target.sha"
  fi
  (cd harness && timeout 700 cargo build --offline --locked) >build/build.log 2>&1 9>&- || { cat build/build.log >&2; echo "machinery error: the build failed" >&2; exit 2; }
  echo "$h" >"$target.sha"
) 9>build/lock || exit 2
case "$1" in
  build) exit 0 ;;
  replay) exec timeout 800 "$target/debug/mc" replay "$2" ;;
  C[0-9][0-9]) ;;
  *) echo "usage: check.sh <PROPERTY> | replay <file> | build" >&2; exit 2 ;;
esac
limit=${MC_LIMIT:-800}
timeout "$limit" "$target/debug/mc" "$1" --tier "${VERIF_TIER:-quick}" ${2:+--only "$2"}
rc=$?
if [ $rc -eq 134 ] || [ $rc -eq 139 ]; then
  # stack overflow or abort: nothing in the checker does that by itself
  f=$VERIF_DIR/replays/$1-crash.txt
  printf 'property %s\nharness crash\ntier %s\n# the process running the code under test crashed (status %s); re-run the check\n' "$1" "${VERIF_TIER:-quick}" $rc >"$f"
  echo "VIOLATION property=$1 replay=$f"
  exit 1
fi
if [ $rc -gt 1 ] && [ $rc -ne 2 ]; then
  echo "machinery error: the checker ended with status $rc" >&2
  exit 2
fi
exit $rc
