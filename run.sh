#!/bin/bash
# run.sh <ID> [quick|thorough]   decide one property on /repo's current working tree
# run.sh replay <file>           re-run one recorded violation
# run.sh build                   only build
set -u
export VERIF_DIR="$(cd "$(dirname "$0")" && pwd)"
export RUSTUP_TOOLCHAIN="${RUSTUP_TOOLCHAIN:-1.78.0}"
export CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR="${VERIF_TARGET:-$VERIF_DIR/target}"
unset RUSTFLAGS RUSTDOCFLAGS CARGO_ENCODED_RUSTFLAGS
LOG="$(mktemp)"
trap '[ -f "$LOG" ] && unlink "$LOG"' EXIT
if ! cargo build --offline --locked --manifest-path "$VERIF_DIR/harness/Cargo.toml" >"$LOG" 2>&1; then
  tail -60 "$LOG" >&2
  echo "HARNESS-ERROR: the monitor does not build against the current tree" >&2
  exit 2
fi
# the WebAssembly binding, for the property about it
case "$*" in *C24*) WASM=1 ;; build) WASM=1 ;; *) WASM= ;; esac
if [ -n "$WASM" ]; then
  export VERIF_BINDING="$CARGO_TARGET_DIR/binding"
  WB=/opt/vp/offline/tools/bin/wasm-bindgen
  [ -x "$WB" ] || WB=wasm-bindgen
  if ! { cargo build --offline --locked --target wasm32-unknown-unknown --manifest-path "$VERIF_DIR/wasm/Cargo.toml" &&
         "$WB" --target nodejs --no-typescript --out-dir "$VERIF_BINDING" "$CARGO_TARGET_DIR/wasm32-unknown-unknown/debug/binding.wasm"; } >"$LOG" 2>&1; then
    tail -60 "$LOG" >&2
    echo "HARNESS-ERROR: the WebAssembly binding does not build from the current tree" >&2
    exit 2
  fi
fi
# canisters built from the library, for the property about them
case "$*" in *C29*) CANISTERS=1 ;; build) CANISTERS=1 ;; *) CANISTERS= ;; esac
if [ -n "$CANISTERS" ]; then
  export VERIF_CANISTERS="$CARGO_TARGET_DIR/wasm32-unknown-unknown/debug/examples"
  if ! cargo build --offline --locked --examples --target wasm32-unknown-unknown --manifest-path "$VERIF_DIR/canisters/Cargo.toml" >"$LOG" 2>&1; then
    tail -60 "$LOG" >&2
    echo "HARNESS-ERROR: the canisters do not build from the current tree" >&2
    exit 2
  fi
fi
unlink "$LOG"; trap - EXIT
BIN="$CARGO_TARGET_DIR/debug/monitor"
case "${1:-}" in
  build) exit 0 ;;
  replay) exec "$BIN" replay "$2" ;;
  *) exec "$BIN" check "$@" ;;
esac
