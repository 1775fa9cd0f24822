#!/bin/bash
# check.sh PROPERTY [quick|thorough]   explore; exit 0, or 1 with a VIOLATION line
# check.sh --replay FILE               run one recorded case again
# check.sh --build                     only build
set -u
export VERIF_DIR="$(cd "$(dirname "$0")" && pwd)"
cd "$VERIF_DIR" || exit 2
export HOME="${HOME:-/root}"
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=1.85.1 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
export CARGO_TARGET_DIR="$VERIF_DIR/target"
unset RUST_LOG RUST_BACKTRACE LEDGER_FILE
export RUST_BACKTRACE=0
[ -f /repo/Cargo.lock ] || cp /opt/vp/Cargo.lock /repo/Cargo.lock
mkdir -p "$CARGO_TARGET_DIR" evidence

build() { # $1: extra flags
    RUSTFLAGS="-W invalid_reference_casting -A warnings $1" cargo build --offline --locked --quiet \
        --manifest-path mc/Cargo.toml >"$CARGO_TARGET_DIR/build.log" 2>&1
}
exec 9>"$CARGO_TARGET_DIR/.lock"
flock 9
# Cargo goes by modification times; a tree that was replaced may have older ones.
sum=$(find /repo/src /repo/Cargo.toml mc/src mc/Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
if [ "$(cat "$CARGO_TARGET_DIR/.sum" 2>/dev/null)" != "$sum" ]; then
    rm -f "$CARGO_TARGET_DIR/.sum"
    cargo clean --offline --quiet --manifest-path mc/Cargo.toml -p ledger-rs-lib -p ledger-mc 2>/dev/null
    hooks=on
    if ! build "--cfg ledger_verif"; then
        # Without the hooks (the internals they show were renamed, for instance).
        hooks=off
        if ! build ""; then
            cat "$CARGO_TARGET_DIR/build.log" >&2
            echo "check error: /repo does not build" >&2
            exit 2
        fi
    fi
    echo $hooks >"$CARGO_TARGET_DIR/.hooks"
    # the executable itself, as a user gets it
    RUSTFLAGS="-W invalid_reference_casting -A warnings" cargo build --offline --quiet --manifest-path /repo/Cargo.toml --bins \
        --target-dir "$CARGO_TARGET_DIR/exe" >"$CARGO_TARGET_DIR/build-exe.log" 2>&1 || {
            cat "$CARGO_TARGET_DIR/build-exe.log" >&2; echo "check error: the executable does not build" >&2; exit 2; }
    echo "$sum" >"$CARGO_TARGET_DIR/.sum"
fi
bin="$CARGO_TARGET_DIR/run.$$"
cp "$CARGO_TARGET_DIR/debug/ledger-mc" "$bin" || exit 2
trap '[ -n "$bin" ] && rm -f "$bin"' EXIT
flock -u 9
export LEDGER_EXE="$CARGO_TARGET_DIR/exe/debug/ledger-rs-lib"
[ "$(cat "$CARGO_TARGET_DIR/.hooks")" = off ] && echo "note: built without the hooks, what needs them is not checked"
ulimit -c 0
ulimit -v 12000000
case "${1:-}" in
    --build) exit 0 ;;
    --replay) "$bin" replay "$2"; exit $? ;;
    "") echo "usage: check.sh PROPERTY [quick|thorough]" >&2; exit 2 ;;
esac
tier="${2:-${VERIF_TIER:-quick}}"
"$bin" check --prop "$1" --tier "$tier"
rc=$?
[ $rc -le 1 ] && exit $rc
exit 2
