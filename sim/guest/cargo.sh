#!/bin/sh
# The build tool CompileOpts is given (as $CARGO): a toolchain that can build core and alloc for RISC-V offline.
# The target directory it asks for becomes a link to one under sim/target.
D=$(cd "$(dirname "$0")" && pwd)
t=
for a in "$@"; do
  [ "$t" = next ] && t=$a
  [ "$a" = --target-dir ] && t=next
done
if [ -n "$t" ]; then
  mkdir -p "$(dirname "$t")" "$D/../target/guest-build"
  [ -e "$t" ] || ln -sfn "$(cd "$D/../target/guest-build" && pwd)" "$t"
fi
# cargo does not notice a changed linker script: always compile the guests themselves
for g in heap work otc string-match template uniswap gen1; do
  rm -rf "$D"/../target/guest-build/riscv32*/*/.fingerprint/"$g"-[0-9a-f]* "$D"/../target/guest-build/riscv32*/*/build/"$g"
done
unset RUSTFLAGS CARGO_TARGET_DIR RUSTC CARGO_MANIFEST_DIR
# a guest has 4 KiB of RAM, constants included: leave out source locations
CARGO_ENCODED_RUSTFLAGS="$CARGO_ENCODED_RUSTFLAGS$(printf '\037-Zlocation-detail=none')"
export CARGO_ENCODED_RUSTFLAGS
RUSTUP_TOOLCHAIN=nightly exec cargo "$@" --offline -Zbuild-std=core,alloc
