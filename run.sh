#!/bin/bash
# run.sh setup               build everything once
# run.sh <ID> [quick|thorough] [--replay FILE | --only SCENARIO | -j N | --keep-going]
# Copies /repo's sources (std replaced by vstd), builds the check and runs it.
# Exit: 0 property held, 1 VIOLATION, 2 could not be decided (build failure and the like).
set -u
root=$(cd "$(dirname "$0")" && pwd)
export VERIF_ROOT="${VERIF_ROOT:-$root}"
export CARGO_TARGET_DIR="${MC_TARGET_DIR:-$root/mc/target}"
export CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_BUILD_RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER
mkdir -p "$CARGO_TARGET_DIR" && cd "$root/mc" || exit 2
python3 gen.py || { echo "cannot copy the sources"; exit 2; }
if [ "${1:-}" = setup ]; then
  cargo build --offline -q -p checks --bins || exit 2
  exit 0
fi
id=$1; shift
bin=$(echo "$id" | tr A-Z a-z)
if ! cargo build --offline -q -p checks --bin "$bin" 2> "$CARGO_TARGET_DIR/build-$bin.log"; then
  tail -40 "$CARGO_TARGET_DIR/build-$bin.log"
  echo "the check $id does not build against this tree"
  exit 2
fi
exec "$CARGO_TARGET_DIR/debug/$bin" "$@"
