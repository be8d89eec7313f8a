#!/bin/bash
# tools/detect.sh [ID...]: runs the check of each planted bug's property (ALL=1: all checks) against a scratch copy with the bug
here="$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)"
ids="$*"; [ -z "$ids" ] && ids="$(ls "$here/seeded")"
one() {
  id="$1"; w="$(mktemp -d /tmp/detect.XXXXXX)"
  cp -r /repo/Cargo.toml /repo/Cargo.lock /repo/src "$w/"
  (cd "$w" && git init -q . && git apply "$here/seeded/$id/patch.diff") || { echo "$id PATCH FAILS"; return; }
  p="$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["property"])' "$here/seeded/$id/meta.json")"
  mkdir -p "$w/ev"
  VERIF_EVIDENCE="$w/ev" bash "$here/check.sh" "$p" "$w" > "$w/out" 2>&1; rc=$?
  printf '%-34s %s rc=%s %s\n' "$id" "$p" "$rc" "$(grep -A1 '^VIOLATION' "$w/out" | sed -n 2p | cut -c1-150)"
  [ $rc = 1 ] || grep 'UNDECIDED' "$w/out" | head -3 | cut -c1-200
  rm -rf "$w"
}
export -f one; export here
printf '%s\n' $ids | xargs -P 6 -I{} bash -c 'one {}' | sort
