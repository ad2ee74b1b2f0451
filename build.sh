#!/bin/bash
# Builds the engine and, from /repo's working tree, the harness binary and its LLVM IR.
# Freshness is decided by content: cargo only looks at file times.
set -e -o pipefail
trap 'echo "build.sh: failed at line $LINENO ($BASH_COMMAND), status $?"' ERR
cd "$(dirname "$(readlink -f "$0")")"
unset CARGO_TARGET_DIR CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET CARGO_PROFILE_RELEASE_LTO CARGO_BUILD_RUSTFLAGS
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
mkdir -p engine/target harness/target
exec 9>harness/target/.lock
flock 9
sum() { find "$@" -type f -not -path '*/target/*' -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1; }
e=$(sum engine/src engine/Cargo.toml engine/build.rs 2>/dev/null || sum engine/src engine/Cargo.toml)
h=$(sum harness/src harness/Cargo.toml harness/Cargo.lock harness/build.rs harness/shim.c)
r=$(sum /repo/src /repo/ts /repo/Cargo.toml /repo/build.rs)
export RUSTFLAGS=-Awarnings
if [ "$(cat engine/target/.stamp 2>/dev/null)" != "$e" ] || [ ! -x engine/target/release/symx ]; then
    rm -f engine/target/.stamp
    rm -rf engine/target/release/.fingerprint/symx-*
    (cd engine; cargo build --release --offline --quiet --target-dir "$PWD/target")
    echo "$e" > engine/target/.stamp
fi
export RUSTFLAGS="-Awarnings --emit=llvm-ir,link -Cno-vectorize-loops -Cno-vectorize-slp --cfg typelalr_verif"
if [ "$(cat harness/target/.stamp 2>/dev/null)" != "$h $r" ] || [ ! -s harness/target/harness.ll ]; then
    rm -f harness/target/.stamp harness/target/harness.ll
    cd harness
    # (cargo builds anew what it has no fingerprint of)
    rm -rf target/sym/.fingerprint/typelalr-* target/sym/.fingerprint/harness-*
    rm -f target/sym/deps/harness-*.ll
    cargo build --offline --quiet --profile sym --target-dir "$PWD/target"
    cp target/sym/deps/harness-*.ll target/harness.ll
    cd ..
    echo "$h $r" > harness/target/.stamp
fi
