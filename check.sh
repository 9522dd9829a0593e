#!/bin/bash
# check.sh <property>      build what the property needs from /repo's working tree and decide it
# check.sh replay <file>   re-execute a recorded violation
# check.sh build           build everything
set -u
cd "$(dirname "$0")" || exit 2
export PSIM_HOME="$PWD"
B="$PWD/.build"
mkdir -p "$B" evidence
export CARGO_NET_OFFLINE=true
unset RUSTFLAGS RUSTC_WRAPPER CARGO_TARGET_DIR CARGO_ENCODED_RUSTFLAGS
W="$PWD/libsim/rustc-wrapper.sh"
# as checked as an ordinary debug build, but faster
O=(--config profile.release.overflow-checks=true --config profile.release.debug-assertions=true)

step() { # step <name> <command...>: run quietly, show the log if it fails
    local log="$B/$1.log"; shift
    if ! "$@" >"$log" 2>&1; then
        echo "build step failed: $*" >&2
        tail -60 "$log" >&2
        return 1
    fi
}

build() {
    case $1 in
    libsim)
        if [ ! -e "$B/libsim.so" ] || [ libsim/libsim.c -nt "$B/libsim.so" ]; then
            step libsim gcc -O2 -U_FORTIFY_SOURCE -fPIC -shared -Wall -Wextra -ftls-model=initial-exec \
                -o "$B/libsim.so.tmp" libsim/libsim.c -ldl -lpthread &&
                mv "$B/libsim.so.tmp" "$B/libsim.so"
        fi ;;
    sim) # the simulator with the library as it is
        step sim cargo build --release --offline --manifest-path sim/Cargo.toml --target-dir "$B/sim" ;;
    cli) # the program, with scheduling points at every block, load and store of its own crates
        step cli env -C /repo RUSTC_WRAPPER="$W" cargo build --offline --release \
            -p poppy-filters --bin poppy --target-dir "$B/cli" \
            "${O[@]}" --config profile.release.lto=false --config profile.release.strip=false ;;
    thr) # threads on the library, with the same scheduling points
        step thr env RUSTC_WRAPPER="$W" cargo build --offline --release \
            --manifest-path thr/Cargo.toml --target-dir "$B/thr" ;;
    py) # the extension module, made to tell when it lets other threads of the interpreter run
        step py env -C /repo PYO3_PYTHON=/usr/bin/python3 \
            RUSTFLAGS="-Clink-arg=-Wl,--wrap=PyEval_SaveThread,--wrap=PyEval_RestoreThread" cargo build --offline --release \
            "${O[@]}" -p poppy-py --features pyo3/extension-module --target-dir "$B/py" ;;
    esac
}

case "${1:-}" in
build | replay) parts="cli thr py" ;;
C03 | C04 | C05 | C07 | C08 | C09 | C10 | C11 | C12 | C14 | C18 | C24 | C26 | C27) parts="cli" ;;
C15) parts="thr" ;;
C16) parts="cli py" ;;
*) parts="" ;;
esac

exec 9>"$B/lock"
flock 9
for p in libsim sim $parts; do
    # setup prepares what it can: every check builds what it needs itself
    build $p || [ "$1" = build ] || exit 3
done
flock -u 9

case "${1:-}" in
build) exit 0 ;;
replay) exec "$B/sim/release/psim" replay "$2" ;;
*) exec "$B/sim/release/psim" check "$1" ;;
esac
