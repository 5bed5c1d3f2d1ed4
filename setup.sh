#!/bin/bash
# Builds the checkers once, offline, so that later checks only rebuild what changed.
set -eu
V="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
. "$V/tools/env.sh"
export CARGO_TARGET_DIR="$V/target"
mkdir -p "$V/target" "$V/evidence" "$V/scratch"
(cd "$V/mc" && cargo build --release --offline --locked)
"$V/tools/chain_tree.sh" "$V/scratch/chain"
(cd "$V/chainmc" && cargo build --release --offline --locked)
(cd "$V/wasmmc" && cargo build --release --offline --locked)
node --version
node "$V/js/bundle.js" /repo/js/src "$V/scratch/bundle.cjs"
