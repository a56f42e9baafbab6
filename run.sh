#!/bin/bash
# run.sh setup            build the harness against /repo's current working tree
# run.sh check ID [args]  rebuild, then decide property ID (tier from VERIF_TIER or --tier)
# run.sh replay FILE      rebuild, then run one stored case
# Exit 0: held, 1: violated (with a VIOLATION line), anything else: no answer.
cd "$(dirname "$0")/harness" || exit 2
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET_DIR
export QV_HOME="$(cd .. && pwd)"
log=$(mktemp)
if ! cargo build --release --offline >"$log" 2>&1; then
  grep -E -A12 '^error' "$log" | head -80 >&2
  rm -f "$log"
  echo "build of the harness failed: no answer" >&2
  exit 2
fi
rm -f "$log"
[ "$1" = setup ] && exit 0
exec ./target/release/qv "$@"
