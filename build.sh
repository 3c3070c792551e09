# sourced by check.sh and setup.sh
# The build is keyed by the content of /repo (not by modification times): when it differs from
# what the last successful build saw, the checked crates are cleaned first.
repo_hash() {
  ( cd /repo && find Cargo.toml src fawkes-crypto_derive -type f -not -path '*/target/*' -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1 )
}
build_crate() { # <crate dir> <bin>
  local dir=$1 bin=$2 h log
  mkdir -p "$dir/target"
  (
    flock 9
    h=$(repo_hash)
    if [ "$(cat "$dir/target/.repo_hash" 2>/dev/null)" != "$h" ]; then
      rm -f "$dir/target/.repo_hash"
      if [ -d "$dir/target/release" ]; then
        ( cd "$dir" && cargo clean --offline --release -p fawkes-crypto -p fawkes-crypto_derive >/dev/null 2>&1 )
      fi
    fi
    log=$dir/target/build-$bin.out
    if ! ( cd "$dir" && cargo build --release --offline --locked --bin "$bin" ) > "$log" 2>&1; then
      grep -E -A12 '^error' "$log" | head -60 >&2
      echo "build of $dir/$bin failed" >&2
      exit 2
    fi
    echo "$h" > "$dir/target/.repo_hash"
  ) 9> "$dir/target/.lock"
}
