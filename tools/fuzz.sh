#!/bin/bash
# fuzz.sh <property> <seconds> <directory>: coverage-guided search (libFuzzer) over the choices of one property's
# generators, with the property's own oracle. Inputs that reached new code, and a failing one if there is any, are left
# in <directory>, from where the check runs them as cases. Prints the number of executions.
set -u
here="$(cd "$(dirname "$0")/.." && pwd)"
id=$1; seconds=$2; dir=$3
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_TARGET_DIR="$here/fuzz/target"
command -v cargo-fuzz >/dev/null || exit 1
mkdir -p "$dir/corpus" "$dir/found" "$here/fuzz/target"
(
  flock 9
  cp "$here/fuzz/Cargo.lock" "$dir/lock"
  # As in run.sh: a changed tree is recognised by its contents.
  now="$(find /repo/src /repo/Cargo.toml "$here/harness/src" -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)"
  if [ "$now" != "$(cat "$here/fuzz/target/.repo-stamp" 2>/dev/null)" ]; then
    rm -f "$here/fuzz/target/.repo-stamp"
    (cd "$here/fuzz" && for t in "" x86_64-unknown-linux-gnu; do
      cargo +nightly clean --offline -q --release ${t:+--target $t} -p tedium -p tedium-verif
    done)
  fi
  cargo +nightly fuzz build --fuzz-dir "$here/fuzz" -s none property
  rc=$?
  [ $rc -eq 0 ] && echo "$now" >"$here/fuzz/target/.repo-stamp"
  cmp -s "$dir/lock" "$here/fuzz/Cargo.lock" || cp "$dir/lock" "$here/fuzz/Cargo.lock"
  rm -f "$dir/lock"
  exit $rc
) 9>"$here/fuzz/target/.build-lock" >"$dir.log" 2>&1 || { tail -n 20 "$dir.log" >&2; exit 1; }
bin="$(ls "$here"/fuzz/target/*/release/property | head -1)"
cd "$dir" || exit 1
FUZZ_PROPERTY=$id timeout $((seconds + 120)) "$bin" -fork=8 -max_total_time="$seconds" -max_len=8192 -len_control=10 -timeout=60 -rss_limit_mb=4096 \
  -seed="${VERIF_SEED:-1}" -artifact_prefix="$dir/found/" "$dir/corpus" >"$dir.log" 2>&1
grep -aoE "^#[0-9]+" "$dir.log" | tail -1 | tr -d '#'
exit 0
