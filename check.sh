#!/bin/bash
# check.sh ID [ARGS]: builds the harness against /repo's working tree and decides one property.
set -u
cd "$(dirname "$0")"
export CARGO_TARGET_DIR="$PWD/.target" CARGO_NET_OFFLINE=true
log=$(mktemp)
built() {
  if ! "$@" >"$log" 2>&1; then
    cat "$log"; rm -f "$log"
    echo "ERROR: the harness does not build against /repo"
    exit 2
  fi
}
# the library with other features, in a process of its own each
variant() {
  (cd variant && CARGO_TARGET_DIR=../.target/variants cargo build --release --offline --locked --features "$2") &&
    cp .target/variants/release/variant ".target/variants/variant-$1.new" &&
    mv -f ".target/variants/variant-$1.new" ".target/variants/variant-$1"
}
built env RUSTC_WRAPPER="$PWD/rustc.sh" cargo build --release --offline --locked --manifest-path harness/Cargo.toml
if [ "${1:-}" = C17 ]; then
  built variant plain ""
  built variant debug debug
  built variant serde serde
  built variant both "debug serde"
fi
rm -f "$log"
exec "$CARGO_TARGET_DIR/release/harness" check "$@"
