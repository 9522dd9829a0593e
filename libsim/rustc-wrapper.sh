#!/bin/bash
# RUSTC_WRAPPER: adds scheduling points (coverage callbacks) to the crates of the repository only
rc="$1"
shift
name=""
prev=""
for a in "$@"; do
    [ "$prev" = "--crate-name" ] && name="$a"
    prev="$a"
done
case "$name" in
poppy_filters | poppy | thr)
    exec "$rc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
        -Cllvm-args=-sanitizer-coverage-trace-pc-guard \
        -Cllvm-args=-sanitizer-coverage-trace-loads -Cllvm-args=-sanitizer-coverage-trace-stores \
        -Clink-arg=-Wl,--unresolved-symbols=ignore-all
    ;;
esac
exec "$rc" "$@"
