#!/bin/bash
# Builds every checker once (fetches nothing). Checks rebuild incrementally from /repo's tree.
export PATH=/root/.cargo/bin:/usr/local/cargo/bin:$PATH HOME=${HOME:-/root}
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET
cd "$(dirname "$0")" || exit 2
. ./build.sh || exit 2
for b in mc/src/bin/*.rs; do
  # (a command line that does not compile is for its own check to report)
  build_crate mc "$(basename "$b" .rs)" || [ "$b" = mc/src/bin/cli.rs ] || exit 2
done
mkdir -p evidence replays
