#!/bin/bash
# check.sh <property> [quick|thorough] [--only CASE]: rebuild against /repo's working tree, then
# run the property's exhaustive exploration. Exit 0 held, 1 violated, 2 could not decide.
export PATH=/root/.cargo/bin:/usr/local/cargo/bin:$PATH HOME=${HOME:-/root}
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET
cd "$(dirname "$0")" || exit 2
export VERIF_DIR=$PWD
PROP=$1; shift
TIER=${VERIF_TIER:-quick}
case "$1" in quick|thorough) TIER=$1; shift;; esac
export VERIF_TIER=$TIER
. ./build.sh || exit 2
BIN=$(echo "$PROP" | tr 'A-Z' 'a-z')
if ! build_crate mc "$BIN"; then
  # a derived implementation that does not compile although the repository itself builds is a broken
  # composite signal; any other build failure is no answer
  if [ "$PROP" = C17 ] && grep -q 'originates in the derive macro `Signal`' mc/target/build-c17.out; then
    mkdir -p replays
    { echo "the derived implementation does not compile:"; grep -E -A12 '^error' mc/target/build-c17.out | head -60; } > replays/C17.txt
    echo "VIOLATION property=C17 replay=$VERIF_DIR/replays/C17.txt"
    exit 1
  fi
  exit 2
fi
if [ "$PROP" = C23 ]; then
  # the macros are expanded only here: when the rest of the repository builds, an expansion that
  # does not compile is a broken command line (unless it asks our clap stub for more than it has)
  if ! build_crate mc cli; then
    grep -qiE '^error.*(clap|derive|unresolved import|no external crate|use of undeclared crate)' mc/target/build-cli.out && exit 2
    mkdir -p replays
    { echo "the command-line macros do not compile:"; grep -E -A12 '^error' mc/target/build-cli.out | head -60; } > replays/C23.txt
    echo "VIOLATION property=C23 replay=$VERIF_DIR/replays/C23.txt"
    exit 1
  fi
  gcc -O1 -shared -fPIC -o mc/target/release/fi.so mc/fi.c || exit 2
  SCRATCH=$(mktemp -d /tmp/c23.XXXXXX) || exit 2
  export TMPDIR=$SCRATCH
  trap 'rm -rf -- "$SCRATCH"' EXIT
fi
MEM_KB=$((24 * 1024 * 1024))
ERR=$(mktemp)
# (the proving library prints a line per generated key)
( ulimit -v $MEM_KB; exec ./mc/target/release/"$BIN" --tier "$TIER" "$@" ) 2> "$ERR" | grep --line-buffered -v '^Has generated '
rc=${PIPESTATUS[0]}
OOM=$(grep -c 'memory allocation of' "$ERR")
tail -c 4000 "$ERR" >&2
rm -f -- "$ERR"
[ "$OOM" != 0 ] && { echo "out of memory" >&2; exit 2; }
case $rc in
  0|1|2) exit $rc ;;
  134|139|132|136) # abort/segfault/illegal instruction of the code under check, inside a case
    mkdir -p replays
    echo "the checked code crashed the process (exit $rc); rerun: ./check.sh $PROP $TIER" > replays/$PROP.txt
    echo "VIOLATION property=$PROP replay=$VERIF_DIR/replays/$PROP.txt"
    exit 1 ;;
  *) echo "check ended with $rc" >&2; exit 2 ;;
esac
