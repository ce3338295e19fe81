#!/bin/bash
# Builds the small program beside this script against the working tree in the current directory and runs
# it in a scratch directory. Exit status 0: the behaviour described in main.rs holds.
export PATH="/usr/local/bin:/root/.cargo/bin:$PATH" HOME="${HOME:-/root}"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
work="$(mktemp -d)" || exit 3
trap 'rm -rf "$work"' EXIT
mkdir "$work/src" || exit 3
cp "$here/main.rs" "$work/src/main.rs" && cp "$here/demo.lock" "$work/Cargo.lock" || exit 3
sed "s#@REPO@#$repo#" "$here/demo.toml" >"$work/Cargo.toml" || exit 3
cd "$work" || exit 3
cargo build --offline -q 2>build.log || { grep -A9 "^error" build.log; exit 4; }
timeout 200 ./target/debug/demo
