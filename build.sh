#!/bin/bash
# Builds /verif/sim against /repo's working tree, offline. Sourced by check.sh; also setup_cmd.
#   build.sh [plain|fine|both]     (default: both)
# plain: the ordinary build. fine: the library calls the scheduler at every branch, load and
# store (tools/fine-rustc), for the checks that preempt threads inside library code.
export HOME="${HOME:-/root}" PATH="/root/.cargo/bin:$PATH"
unset CARGO_ENCODED_RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET CARGO_BUILD_RUSTFLAGS
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu RUSTC_WRAPPER= RUSTFLAGS=
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export SIMCHECK_DIR="$here"

build() { # target-folder wrapper
    # One build at a time in this folder.
    mkdir -p "$here/sim/$1"
    (flock 9 && build_locked "$@" 9>&-) 9>"$here/sim/$1/.lock"
}
build_locked() {
    # Cargo goes by modification times, which misses a file replaced by an older one:
    # forget that the library and the simulator are fresh (dependencies are kept).
    rm -rf "$here/sim/$1"/release/.fingerprint/subtile-* "$here/sim/$1"/release/.fingerprint/simcheck-*
    local log
    log="$(mktemp)"
    if ! (cd "$here/sim" && RUSTC_WRAPPER="$2" CARGO_TARGET_DIR="$here/sim/$1" cargo build --release --offline --locked) >"$log" 2>&1; then
        tail -n 60 "$log" >&2
        rm -f "$log"
        echo "simcheck: the build failed" >&2
        return 1
    fi
    rm -f "$log"
}
ok=0
case "${1:-both}" in
    plain) build target "" || ok=1 ;;
    fine) build target-fine "$here/tools/fine-rustc" || ok=1 ;;
    *) { build target "" && build target-fine "$here/tools/fine-rustc"; } || ok=1 ;;
esac
# shellcheck disable=SC2317
return $ok 2>/dev/null || exit $ok
