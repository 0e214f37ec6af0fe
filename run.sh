#!/bin/bash
# run.sh <property> [arguments of tedium-verif]: builds the harness against /repo's working tree and runs one check.
# run.sh build: only builds.
# Exit: 0 held, 1 violated (with a VIOLATION line), 2 error of the check (for example the tree does not build).
set -u
here="$(cd "$(dirname "$0")" && pwd)"
target="$here/harness/target"
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_TARGET_DIR="$target"
mkdir -p "$target"
log="$(mktemp)"
(
  flock 9
  cd "$here/harness" || exit 2
  # Cargo goes by modification times; a tree that was copied or patched is recognised by its contents instead.
  now="$(find /repo/src /repo/Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)"
  if [ "$now" != "$(cat "$target/.repo-stamp" 2>/dev/null)" ]; then
    rm -f "$target/.repo-stamp"
    cargo clean --release --offline --locked -q -p tedium
    cargo clean --release --offline --locked -q -p tedium-verif
  fi
  cargo build --release --offline --locked -q || exit 2
  echo "$now" >"$target/.repo-stamp"
) 9>"$target/.build-lock" >"$log" 2>&1
rc=$?
if [ $rc -ne 0 ]; then
  tail -n 40 "$log" >&2
  rm -f "$log"
  echo "run.sh: the harness did not build" >&2
  exit 2
fi
rm -f "$log"
[ "$1" = build ] && exit 0
case "$1 $* ${VERIF_TIER:-}" in
  # These change the process or the disk with every case, which is nothing to fuzz.
  C22*|C23*|C26*) ;;
  C??\ *thorough*)
    # The thorough tier begins with a coverage-guided search, whose inputs become cases of the check.
    work="$(mktemp -d)"
    runs="$("$here/tools/fuzz.sh" "$1" "${FUZZ_SECONDS:-240}" "$work/fuzz")" \
      && set -- "$@" --corpus "$work/fuzz" --fuzz-runs "${runs:-0}" \
      || echo "run.sh: no coverage-guided search (see above)" >&2
    "$target/release/tedium-verif" "$@" --root "$here"
    rc=$?
    rm -rf "$work"
    exit $rc ;;
esac
exec "$target/release/tedium-verif" "$@" --root "$here"
