#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough]   decide one property on /repo's working tree
#        check.sh replay FILE                 run one recorded violation again
#        check.sh build                       only build
cd "$(dirname "$0")" || exit 2
V=$PWD
B=${MC_BUILD:-$V/.build}
REPO=${MC_REPO:-/repo}
mkdir -p "$B/bins" "$V/evidence" || exit 2
export HOME="${HOME:-/root}"
export PATH="$HOME/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_TERM_COLOR=never CARGO_PROFILE_DEV_DEBUG=line-tables-only RUSTC_WRAPPER=
unset RUSTFLAGS CARGO_BUILD_TARGET CARGO_RESOLVER_LOCKFILE_PATH
log=$B/build.log
build() {
    # the explorer, its shim and its virtual programs
    gcc -O1 -fPIC -shared -o "$B/bins/shim.so" mc/shim/shim.c -ldl &&
    gcc -O1 -o "$B/bins/vp" mc/shim/vp.c &&
    ( cd mc && CARGO_TARGET_DIR="$B/mc" cargo build --release --offline ) || return 1
    # the shell, as /opt/vp/build.sh builds it, from the tree as it is now and into a directory of ours
    if [ ! -d "$B/rsh" ]; then
        mkdir -p "$B/rsh"
        [ -d "$REPO/target/debug" ] && cp -a "$REPO/target/debug" "$B/rsh/"
    fi
    # (a lock file of ours: the committed one is older than Cargo.toml)
    if [ -f /opt/vp/Cargo.lock ]; then cp -f /opt/vp/Cargo.lock "$B/Cargo.lock"; export CARGO_RESOLVER_LOCKFILE_PATH="$B/Cargo.lock"; fi
    ( cd "$REPO" && export CARGO_TARGET_DIR="$B/rsh" && cargo clean -p rsh --offline && cargo build --offline ) || return 1
    cp -f "$B/rsh/debug/rsh" "$B/bins/rsh"
}
if [ -z "${MC_NOBUILD:-}" ]; then
    build > "$log" 2>&1 || { echo "cannot build:"; tail -30 "$log"; exit 2; }
fi
[ "$1" = build ] && exit 0
export MC_BINS="$B/bins" MC_VERIF="$V"
"$B/mc/release/mc" "$@"


