#!/bin/bash
# ./check.sh <ID> [--replay FILE]: rebuilds the checker of one property against /repo's working tree and
# runs it. Exit 0: held; 1: violated (VIOLATION line); anything else: the check itself failed.
set -u
cd "$(dirname "$0")" || exit 2
export VERIF_ROOT="$PWD" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset CARGO_TARGET_DIR RUSTFLAGS
id="$1"
shift
case "$id" in
C*) ;;
*)
  echo "unknown property $id" >&2
  exit 2
  ;;
esac
bin=$(echo "$id" | tr 'A-Z' 'a-z')
if [ -x "checks/$bin.sh" ]; then
  exec "checks/$bin.sh" "$@"
fi
log=$(mktemp)
if ! cargo build --release --offline --manifest-path mc/Cargo.toml --bin "$bin" >"$log" 2>&1; then
  grep -E -A8 '^error' "$log" | head -60 >&2
  rm -f "$log"
  echo "$id: the checker does not build against /repo" >&2
  exit 2
fi
rm -f "$log"
exec "mc/target/release/$bin" "$@"
