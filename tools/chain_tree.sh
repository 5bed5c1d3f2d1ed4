#!/bin/bash
# chain_tree.sh DEST: a copy of /repo/program in which the code meant for the chain is what the host compiles:
# conditional compilation takes the branch of target_os = "solana". Nothing else is changed.
set -eu
D="$1"
mkdir -p "$D"
new="$D.new.$$"
rm -rf "$new"; mkdir -p "$new"
(cd /repo/program && find . -path ./target -prune -o -type f -print0 | tar -c --null -T - ) | tar -x -C "$new"
find "$new/src" -name '*.rs' -print0 | xargs -0 perl -0pi -e 's/\btarget_os\s*=\s*"solana"/all()/g; s/\btarget_arch\s*=\s*"(?:bpf|sbf)"/all()/g'
sed -i '0,/^name *= */s/^name *=.*/name = "aob-chain"/' "$new/Cargo.toml"
# keep the time stamps of unchanged files, so that only a change is compiled again
if [ -d "$D/src" ] && diff -r "$new" "$D" >/dev/null 2>&1; then rm -rf "$new"; else rm -rf "$D"; mv "$new" "$D"; fi
