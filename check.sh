#!/bin/bash
# Usage: check.sh <property> [quick|thorough] | build | replay <file>
# Builds the harness against the current working tree of /repo, then runs one check.
# Exit 0: held. Exit 1: violation. Anything else: the check itself failed.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
repo=/repo
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export CARGO_NET_OFFLINE=true
export VERIF_DIR="$here"
export CARGO_TARGET_DIR="$here/harness/target"
cov="$CARGO_TARGET_DIR/cov"
export GUIDED_CHECK="$cov/release/check"
mkdir -p "$CARGO_TARGET_DIR" "$cov" || exit 3

build() {
  # a changed tree is always rebuilt, whatever its time stamps say
  local now old
  now="$(cd "$repo" && find src Cargo.toml -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum)"
  old="$(cat "$CARGO_TARGET_DIR/tree.sum" 2>/dev/null)"
  if [ "$now" != "$old" ]; then
    (cd "$here/harness" && cargo clean --release --offline -p renplex) >/dev/null 2>&1
    (cd "$here/harness" && CARGO_TARGET_DIR="$cov" cargo clean --release --offline -p renplex) >/dev/null 2>&1
  fi
  # the second build reports coverage to the guided search
  (cd "$here/harness" && CARGO_TARGET_DIR="$cov" RUSTC_WRAPPER="$here/harness/rustc-cov.sh" cargo build --release --offline --bin check) >"$CARGO_TARGET_DIR/cov.log" 2>&1 &
  local second=$!
  if ! (cd "$here/harness" && cargo build --release --offline --bin check) >"$CARGO_TARGET_DIR/build.log" 2>&1; then
    echo "CHECK-ERROR the harness does not build"
    tail -40 "$CARGO_TARGET_DIR/build.log"
    wait "$second"
    return 3
  fi
  if ! wait "$second"; then
    echo "CHECK-ERROR the instrumented harness does not build"
    tail -40 "$CARGO_TARGET_DIR/cov.log"
    return 3
  fi
  printf '%s\n' "$now" >"$CARGO_TARGET_DIR/tree.sum"
}

exec 9>"$CARGO_TARGET_DIR/check.lock"
flock 9
build || exit 3
flock -u 9
exec 9>&-

case "${1:-}" in
  build) exit 0 ;;
  replay) "$CARGO_TARGET_DIR/release/check" replay "$2"; code=$? ;;
  *) timeout -k 10 800 "$CARGO_TARGET_DIR/release/check" "$1" "${2:-${VERIF_TIER:-quick}}"; code=$? ;;
esac
# a killed or crashed run is not a verdict
case $code in 0|1) exit $code ;; *) echo "CHECK-ERROR exit code $code"; exit 3 ;; esac
