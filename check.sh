#!/bin/bash
# check.sh ID: decides one property for /repo's current source.
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
id="$1"
repo="${2:-/repo}"
build="$here/.build"
ev="${VERIF_EVIDENCE:-$here/evidence}"
mkdir -p "$build" "$ev"
# the resolved program is kept as long as neither the source nor the dumper change
key="$(cd "$repo" && { find src -type f -print0 | sort -z | xargs -0 sha256sum; sha256sum Cargo.toml Cargo.lock 2>/dev/null; sha256sum "$here/driver/src/main.rs" "$here/analysis/stop.txt" "$here/dump.sh" | cut -c1-64; } | sha256sum | cut -c1-32)"
dump="$build/dump-$key.json"
if [ ! -s "$dump" ]; then
  find "$build" -maxdepth 1 -name 'dump-*.json' -mmin +60 -delete 2>/dev/null
  if ! bash "$here/dump.sh" "$dump.$$" "$repo" 2>"$build/dump.$$.log"; then
    tail -30 "$build/dump.$$.log"
    echo "the current tree could not be compiled for analysis"
    exit 2
  fi
  mv "$dump.$$" "$dump"
fi
exec python3 "$here/analysis/check.py" "$id" "$dump" "$ev/$id.json" "$here/known_findings.txt"
