#!/bin/bash
# Builds the engine, the harness as LLVM IR from /repo's current tree, and the native replay binary.
# usage: build.sh TARGETDIR  -> TARGETDIR/harness.ll, TARGETDIR/replay, TARGETDIR/symex
set -euo pipefail
V=$(cd "$(dirname "$0")" && pwd)
T=$1; mkdir -p "$T"
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_RUSTFLAGS || true
# the crate under test and the harness are always compiled anew: time stamps of /repo's files decide nothing
rm -rf "$T"/{ir/release,native/native}/.fingerprint/{pcverif,probabilistic-collections}-*
(cd "$V/engine" && CARGO_TARGET_DIR="$T/engine" cargo build --release --offline >"$T/engine.log" 2>&1) & p1=$!
(cd "$V/harness" && rm -rf "$T"/ir/release/deps/pcverif-*.ll && RUSTFLAGS="--cfg pcrs_verif -Awarnings" CARGO_TARGET_DIR="$T/ir" cargo rustc --locked --offline --release -- --emit=llvm-ir,link -C no-vectorize-loops -C no-vectorize-slp -C link-arg=-Wl,--unresolved-symbols=ignore-all >"$T/ir.log" 2>&1) & p2=$!
(cd "$V/harness" && RUSTFLAGS="--cfg pcrs_verif -Awarnings" CARGO_TARGET_DIR="$T/native" cargo build --locked --offline --profile native --features native >"$T/native.log" 2>&1) & p3=$!
rc=0
wait $p1 || { echo "engine build failed"; tail -30 "$T/engine.log"; rc=1; }
wait $p2 || { echo "harness IR build failed"; tail -30 "$T/ir.log"; rc=1; }
wait $p3 || { echo "native replay build failed"; tail -30 "$T/native.log"; rc=1; }
[ $rc = 0 ] || exit 70
cp "$T/engine/release/symex" "$T/symex"
cp "$T"/ir/release/deps/pcverif-*.ll "$T/harness.ll"
cp "$T/native/native/pcverif" "$T/replay"
