#!/bin/sh
# Builds the simulator against the current working tree of /repo. Warnings go to a log.
cd "$(dirname "$0")" || exit 2
export RUSTC_WRAPPER="$PWD/rustc-wrapper.sh" CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
unset RUSTFLAGS
mkdir -p target
if ! cargo build --release --offline --locked -q "$@" >target/build.log 2>&1; then
  grep -A12 '^error' target/build.log | head -80
  echo "ERROR: the simulator does not build against /repo"
  exit 2
fi
