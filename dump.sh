#!/bin/bash
# Writes the resolved program of /repo's current tree to $1 (JSON).
set -e
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
out="$1"
repo="${2:-/repo}"
build="$here/.build"
mkdir -p "$build"
sys="$(rustc +nightly --print sysroot)"
export LD_LIBRARY_PATH="$sys/lib"
(
  flock 9
  if [ ! -x "$build/driver/release/mirdump" ] || [ "$here/driver/src/main.rs" -nt "$build/driver/release/mirdump" ]; then
    cargo +nightly build --release --offline --quiet --manifest-path "$here/driver/Cargo.toml" --target-dir "$build/driver" >&2
    touch "$build/driver/release/mirdump"
  fi
  work="$(mktemp -d "$build/work.XXXXXX")"
  trap 'rm -rf "$work"' EXIT
  mkdir -p "$build/deps"
  # cargo would skip the wrapper if it thought the crate was fresh
  find "$build/deps" -path '*rtps*' -prune -exec rm -rf {} + 2>/dev/null || true
  MIRDUMP_OUT="$work/dump.json" MIRDUMP_CRATE=rtps_rs MIRDUMP_STOP="$here/analysis/stop.txt" \
  RUSTC_WORKSPACE_WRAPPER="$build/driver/release/mirdump" RUSTFLAGS="-Zmir-opt-level=0 -Zalways-encode-mir -Coverflow-checks=on -Cdebug-assertions=on -Awarnings" \
    cargo +nightly check --offline --lib --quiet --manifest-path "$repo/Cargo.toml" --target-dir "$build/deps" >&2
  mv "$work/dump.json" "$out"
) 9>"$build/lock"
