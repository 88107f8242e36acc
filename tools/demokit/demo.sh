#!/bin/bash
# Builds main.rs (beside this script) against the crates in the current directory and runs it.
# exit 0: the behaviour is right.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
. /opt/vp/env.sh
cd "$repo"
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
mkdir "$t/src"
cp "$here"/*.rs "$t/src/"
cp "$repo/Cargo.lock" "$t/"
cat > "$t/Cargo.toml" <<X
[workspace]
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
fhevm = { path = "$repo/fhevm" }
compiler = { path = "$repo/compiler" }
poulpy-hal = { version = "0.4.1" }
poulpy-core = { version = "0.4.1", features = ["enable-avx"] }
poulpy-cpu-avx = { version = "0.1.1", features = ["enable-avx"] }
poulpy-schemes = { version = "0.4.1", features = ["enable-avx"] }
libc = "0.2"
X
export CARGO_TARGET_DIR="$t/target" CARGO_INCREMENTAL=0 TMP_DEMO="$t"
[ -f "$here/flags" ] && export RUSTFLAGS="$RUSTFLAGS $(cat "$here/flags")"
cargo build --offline --quiet --manifest-path "$t/Cargo.toml" || { echo "demo does not build"; exit 2; }
timeout 200 "$t/target/debug/demo"
