#!/bin/bash
# usage: check.sh ID [quick|thorough]   (VERIF_SEED chooses the random cases)
# Rebuilds the harness and the library from /repo's working tree, then runs the check.
export HOME=/root PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:/root/.cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
here=$(cd "$(dirname "$0")" && pwd)
export CARGO_TARGET_DIR="$here/harness/target" VERIF_ROOT="$here"
log=$(mktemp)
if ! (cd "$here/harness" && RUSTFLAGS="-Awarnings" cargo build --release --offline) >"$log" 2>&1; then
    tail -40 "$log"
    rm -f "$log"
    echo "ERROR: the harness does not build against /repo"
    exit 3
fi
rm -f "$log"
[ "$1" = build ] && exit 0
exec "$here/harness/target/release/vh" run "$1" "${2:-${VERIF_TIER:-quick}}"
