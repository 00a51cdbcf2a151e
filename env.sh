# sourced by run.sh and by hand: toolchain, offline, own target directory
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1
export VERIF_ROOT="${VERIF_ROOT:-/verif}"
export CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR="$VERIF_ROOT/target"
export CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=0
unset RUST_BACKTRACE
