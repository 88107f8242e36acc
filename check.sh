#!/bin/bash
# check.sh PROPERTY: rebuild the simulator and /repo's crates from the current tree, then search.
# VERIF_TIER (quick|thorough) and VERIF_SEED choose depth and seed.
D=$(cd "$(dirname "$0")" && pwd)
"$D/sim/build.sh" || { echo "check.sh: build failed" >&2; exit 3; }
exec "$D/sim/target/x86_64-unknown-linux-gnu/debug/phsim" check "$1" --tier "${VERIF_TIER:-quick}" --seed "${VERIF_SEED:-1}" --out "$D/evidence" --known "$D/known-findings.txt"
