#!/bin/bash
# run.sh <property id>: builds what the check needs from /repo's working tree and runs it.
# Tier from VERIF_TIER (quick | thorough). Exit 0 held, 1 violation, 2 no verdict.
set -u
ROOT="$(cd "$(dirname "$0")" && pwd)"
export VERIF_ROOT="$ROOT"
. "$ROOT/env.sh"
ID="${1:?property id}"
mkdir -p "$ROOT/evidence" "$ROOT/work"
build() { # crate
  local log="$ROOT/work/build-$$.log"
  if ! cargo build --offline --manifest-path "$ROOT/mc/Cargo.toml" -p "$1" >"$log" 2>&1; then
    cat "$log"; rm -f "$log"; echo "build failed"; exit 2
  fi
  rm -f "$log"
}
case "$ID" in
  setup) build codec; build derive; build idl; build gener; exit 0 ;;
  C*) build codec; ulimit -v 24000000; exec "$CARGO_TARGET_DIR/debug/codec" check "$ID" ;;
  P*) build idl; ulimit -v 24000000; exec "$CARGO_TARGET_DIR/debug/idl" check "$ID" ;;
  G*)
    build gener; ulimit -v 16000000; exec "$CARGO_TARGET_DIR/debug/gener" check "$ID" ;;
  T01)
    build gener
    LOG="$ROOT/work/rpcgen-$$.log"
    if ! cargo build --offline --manifest-path /repo/Cargo.toml -p rpcgen --target-dir "$CARGO_TARGET_DIR/repo" >"$LOG" 2>&1; then
      cat "$LOG"; rm -f "$LOG"; echo "build failed"; exit 2
    fi
    rm -f "$LOG"
    export RPCGEN_BIN="$CARGO_TARGET_DIR/repo/debug/rpcgen"
    ulimit -v 16000000; exec "$CARGO_TARGET_DIR/debug/gener" check T01 ;;
  D*)
    build model
    LOG="$ROOT/work/derive-$ID.log"
    if ! cargo build --offline --manifest-path "$ROOT/mc/Cargo.toml" -p derive >"$LOG" 2>&1; then
      # the crate compiles with a correct derive: what it derives is what fails
      cat "$LOG"
      mkdir -p "$ROOT/replays"
      { echo "property=$ID"; echo "kind=special"; echo "case=derived code does not compile"; cat "$LOG"; } >"$ROOT/replays/$ID-build.txt"
      grep -q '^error' "$LOG" && grep -q 'derive macro\|derive/src/family.rs\|proc-macro derive panicked' "$LOG" || exit 2
      python3 "$ROOT/tools/evidence.py" "$ID" "the derived code does not compile" "$ROOT/replays/$ID-build.txt"
      echo "VIOLATION property=$ID replay=$ROOT/replays/$ID-build.txt"
      exit 1
    fi
    exec "$CARGO_TARGET_DIR/debug/derive" check "$ID" ;;
  *) echo "no check $ID"; exit 2 ;;
esac
