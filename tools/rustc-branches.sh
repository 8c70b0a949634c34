#!/bin/bash
# rustc wrapper: the library crates and the checker get a scheduling point at every branch
rustc=$1; shift
case " $* " in
  *" --crate-name haproxy_spop "*|*" --crate-name haproxy_spoa "*|*" --crate-name mc "*)
    exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard ;;
esac
exec "$rustc" "$@"
