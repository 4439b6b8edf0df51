#!/bin/bash
# run.sh <property-id> <quick|thorough>: builds the explorer against /repo's
# working tree and decides one property.  run.sh --build only builds.
cd "$(dirname "$0")" || exit 2
export HOME=${HOME:-/root}
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$HOME/.cargo/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export CARGO_HUSKY_DONT_INSTALL_HOOKS=true
export CARGO_TARGET_DIR="$PWD/target"
if ! cargo build --release --offline --manifest-path harness/Cargo.toml >target-build.log 2>&1; then
  cat target-build.log >&2
  echo "build of the explorer against /repo failed" >&2
  exit 2
fi
[ "$1" = "--build" ] && exit 0
ulimit -c 0
exec ./target/release/fqmc "$1" "${2:-${VERIF_TIER:-quick}}" "$PWD"
