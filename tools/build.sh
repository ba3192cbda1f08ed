#!/bin/bash
# Build the simulator against /repo's current working tree.
set -e
here="$(cd "$(dirname "$0")/.." && pwd)"
export PATH="$here/tools/npm-stub:$PATH"
export RUSTC_WRAPPER="$here/tools/rustc-cov"
export CARGO_TARGET_DIR="$here/sim/target"
export CARGO_NET_OFFLINE=true
unset RUSTFLAGS
mkdir -p /repo/dashboard/dist "$here/sim/target"
cd "$here/sim"
# the server's main is built in if it can stand as a module; everything else does without it
if ! cargo build --offline --quiet --features realmain "$@" 2>"$here/sim/target/realmain.log"; then
  exec cargo build --offline --quiet "$@"
fi
