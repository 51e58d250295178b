#!/bin/bash
# check.sh setup | <id> [quick|thorough] | replay <file>
# Builds the harness against /repo's working tree, and runs one check.
here="$(cd "$(dirname "$0")" && pwd)"
cd "$here/harness" || exit 2
export PATH="/root/.cargo/bin:/usr/local/cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN="${RUSTUP_TOOLCHAIN:-stable-x86_64-unknown-linux-gnu}"
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_TARGET_DIR="$here/harness/target"
unset RUSTFLAGS RUSTC_WRAPPER CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS
log="$(mktemp)"
if ! cargo build --offline --locked >"$log" 2>&1; then
  echo "the harness does not build against /repo:" >&2
  grep -E '^error' -A 12 "$log" | head -60 >&2
  rm -f "$log"
  exit 2
fi
rm -f "$log"
export MON_ROOT="$here"
mon="$here/harness/target/debug/mon"
case "$1" in
  setup) exit 0 ;;
  replay) exec "$mon" replay "$2" ;;
  "") exec "$mon" list ;;
  *)
    [ -n "$2" ] && export VERIF_TIER="$2"
    exec "$mon" check "$1"
    ;;
esac
