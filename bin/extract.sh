#!/bin/bash
# Extract MIR facts of the repository's current working tree into the directory $1 (created).
# usage: extract.sh OUTDIR [REPO]
# exit 0 facts complete; 4 facts of the workspace only (the instantiation crate did not build);
# 2 the repository does not compile; 3 the tool chain failed
set -u
OUT=$(realpath -m "$1"); REPO=${2:-/repo}
V=$(cd "$(dirname "$0")/.." && pwd)
export HOME=/root PATH=/root/.cargo/bin:${PATH:-/usr/bin:/bin}
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
unset RUSTC_WRAPPER RUSTC_WORKSPACE_WRAPPER RUSTUP_TOOLCHAIN CARGO_BUILD_TARGET CARGO_TARGET_DIR
W=${ZKP_WORK:-$V/.work}
mkdir -p "$W" "$OUT" || exit 3
SYS=$(rustc +nightly --print sysroot) || exit 3
export LD_LIBRARY_PATH="$SYS/lib"
DRV=$W/driver/release/zkpfacts
SUM=$(sha256sum "$V/driver/src/main.rs" "$V/driver/Cargo.toml" | sha256sum | cut -c1-16)
if [ ! -x "$DRV" ] || [ "$(cat "$W/driver.sum" 2>/dev/null)" != "$SUM" ]; then
  (cd "$V/driver" && RUSTFLAGS= CARGO_TARGET_DIR="$W/driver" cargo +nightly build --release --offline >"$W/driver.log" 2>&1) || { tail -30 "$W/driver.log"; exit 3; }
  echo "$SUM" >"$W/driver.sum"
fi
T=$W/target
# the wrapper must see every workspace crate again: cargo's freshness cache would skip it
rm -rf "$T"/debug/.fingerprint/zkp-* "$T"/debug/build/zkp-*
rm -f "$OUT"/*.json
export ZKPFACTS_OUT="$OUT"
export ZKPFACTS_WS=zkp_macros_lib,zkp_macros_impl,zkp_macros_decl,zkp_criterion_utils,zkp_error_utils,zkp_logging_allocator,zkp_mmap_vec,zkp_u256,zkp_primefield,zkp_elliptic_curve,zkp_hash,zkp_merkle_tree,zkp_elliptic_curve_crypto,zkp_stark,zkp_witness
export RUSTFLAGS="--cap-lints allow -Zalways-encode-mir" CARGO_TARGET_DIR="$T" CARGO_PROFILE_DEV_DEBUG=0
mkdir -p "$W/witness/src" && cp "$V/witness/src/lib.rs" "$W/witness/src/lib.rs" || exit 3
sed "s#\"/repo/#\"$REPO/#" "$V/witness/Cargo.toml" >"$W/witness/Cargo.toml"
cp /opt/vp/Cargo.lock "$W/witness/Cargo.lock"
cd "$W/witness" || exit 3
if RUSTC_WRAPPER="$DRV" cargo +nightly check --lib --offline >"$W/extract.log" 2>&1; then exit 0; fi
rm -f "$OUT"/*.json; rm -rf "$T"/debug/.fingerprint/zkp-* "$T"/debug/build/zkp-*
LOCK_MADE=0
[ -e "$REPO/Cargo.lock" ] || { cp /opt/vp/Cargo.lock "$REPO/Cargo.lock"; LOCK_MADE=1; }
cd "$REPO" || exit 3
RUSTC_WORKSPACE_WRAPPER="$DRV" cargo +nightly check --workspace --lib --offline >"$W/extract2.log" 2>&1
RC=$?
[ $LOCK_MADE = 1 ] && rm -f "$REPO/Cargo.lock"
[ $RC = 0 ] || { echo "extract: the repository does not compile"; tail -30 "$W/extract2.log"; exit 2; }
echo "extract: the instantiation crate does not build against the current tree"; tail -30 "$W/extract.log"
exit 4
