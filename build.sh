#!/bin/bash
# Builds what a check needs, offline: the simulator, the orchestrator and dunesh from /repo's working tree.
# Output: /verif/target only.
set -e
V="$(cd "$(dirname "$0")" && pwd)"
export HOME=/root CARGO_HOME=/root/.cargo RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export RUSTC_WRAPPER= RUSTFLAGS=
T="$V/target"
mkdir -p "$T/shim"
( cd "$V/sim" && gcc -shared -fPIC -O2 -g -Wall -U_FORTIFY_SOURCE -D_FORTIFY_SOURCE=0 -Wno-nonnull-compare -fvisibility=hidden \
    -o "$T/shim/libdunesim.so.new" core.c vfs.c io.c proc.c -ldl -lpthread && mv "$T/shim/libdunesim.so.new" "$T/shim/libdunesim.so" )
( cd "$V/orch" && CARGO_INCREMENTAL=0 CARGO_TARGET_DIR="$T/orch" cargo build --release --offline --quiet )
# cargo goes by modification time: forget the package's own fingerprints so that every change is seen
rm -rf "$T"/dune/debug/.fingerprint/dune-* "$T"/dune/debug/.fingerprint/dunesh-*
( cd /repo && CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_OPT_LEVEL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TARGET_DIR="$T/dune" \
    cargo build --offline --quiet --bin dunesh 2>"$T/dune-build.log" ) || { cat "$T/dune-build.log"; exit 3; }
