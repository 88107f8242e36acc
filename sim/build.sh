#!/bin/bash
# Builds the simulator together with /repo's crates (hooks on) from the current working tree.
set -e
D=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh   # toolchain and offline switches; it also does `cd /repo`
cd "$D"
export RUSTFLAGS="-C target-feature=+avx2,+fma --cfg phantom_sim -Zsanitizer=thread -Zexternal-clangrt -Cunsafe-allow-abi-mismatch=sanitizer -Cllvm-args=-tsan-instrument-memory-accesses=0 -Cllvm-args=-tsan-instrument-memintrinsics=0"
export CARGO_TARGET_DIR="$D/target" CARGO_INCREMENTAL=0
exec cargo build --offline --quiet --target x86_64-unknown-linux-gnu "$@"
