#!/bin/bash
# check.sh Cnn : rebuilds the checker against /repo's working tree and decides property Cnn. VERIF_TIER=quick|thorough.
# Exit 0: held on everything explored; 1: VIOLATION line printed; other: the check itself failed.
set -u
V="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
. "$V/tools/env.sh"
export CARGO_TARGET_DIR="$V/target" AOBMC_OUT="$V" AOBMC_HOME="$V"
export VERIF_TIER="${VERIF_TIER:-quick}" VERIF_SEED="${VERIF_SEED:-1}"
ID="$1"
case "$ID" in
  C27) CRATE=wasmmc; SRC=/repo/js/wasm; PKG=dex-wasm; EXE=wasmmc ;;
  C28) CRATE=chainmc; SRC=/repo/program; PKG=asset-agnostic-orderbook; EXE=chainmc ;;
  *) CRATE=mc; SRC=/repo/program; PKG=asset-agnostic-orderbook; EXE=aobmc ;;
esac
mkdir -p "$V/target" "$V/evidence" "$V/scratch"
BIN=""
compile() { (cd "$V/$CRATE" && cargo build --release --offline --locked "$@") >"$V/scratch/build-$CRATE.out" 2>&1; }
errors() { grep -E "^error" -A8 "$V/scratch/build-$CRATE.out" | head -60 >&2; tail -3 "$V/scratch/build-$CRATE.out" >&2; }
build() {
  exec 9>"$V/target/.check-lock"
  flock 9
  local h
  h=$(cd "$SRC" && { find src Cargo.toml Cargo.lock -type f 2>/dev/null | LC_ALL=C sort | xargs sha256sum; } | sha256sum)
  # cargo goes by modification times; the content decides here
  if [ "$(cat "$V/target/.stamp-$PKG" 2>/dev/null)" != "$h" ]; then
    rm -rf "$V"/target/release/.fingerprint/{$PKG,aob-chain,aobmc,chainmc,wasmmc}-*
  fi
  [ "$CRATE" != chainmc ] || "$V/tools/chain_tree.sh" "$V/scratch/chain" || return 1
  if compile; then BIN="$V/target/release/$EXE"
  elif [ "$CRATE" = mc ]; then
    # some part of the public interface has another shape: leave out the explorations that use that part
    local f ok="" need=""
    case "$ID" in C21) need=builders ;; C22) need=readers ;; C23) need=rounding ;; esac
    for f in readers sizes rounding builders; do
      if (cd "$V/mc" && cargo check --release --offline --locked --no-default-features --features "$f") >>"$V/scratch/build-mc.out" 2>&1; then ok="$ok,$f"; fi
    done
    if [ -n "$need" ] && [[ "$ok," != *",$need,"* ]]; then errors; return 1; fi
    compile --no-default-features --features "${ok#,}" || { errors; return 1; }
    BIN="$V/scratch/aobmc-$ID"
    cp "$V/target/release/aobmc" "$BIN.tmp" && mv "$BIN.tmp" "$BIN"
    rm -f "$V/target/.stamp-$PKG"
    echo "check $ID: explored without the parts of the public interface that no longer compile; left: ${ok#,}" >&2
  else errors; return 1; fi
  [ "$BIN" = "$V/scratch/aobmc-$ID" ] || echo "$h" >"$V/target/.stamp-$PKG"
  flock -u 9
}
if ! build; then echo "check $ID: the build failed" >&2; exit 2; fi
# runaway allocation must end as a failed allocation, not as a machine out of memory (node reserves address space freely)
[ "$ID" = C26 ] || ulimit -v 30000000
if [ "$CRATE" = wasmmc ]; then "$BIN"; rc=$?; else "$BIN" check "$ID"; rc=$?; fi
case $rc in
  0|1) exit $rc ;;
  134|139) # the code under test took the whole process down
    mkdir -p "$V/replays"
    echo "{\"property\":\"$ID\",\"message\":\"the process died with status $rc while exploring\"}" >"$V/replays/$ID-crash.json"
    echo "VIOLATION property=$ID replay=$V/replays/$ID-crash.json"; exit 1 ;;
  *) exit 2 ;;
esac
