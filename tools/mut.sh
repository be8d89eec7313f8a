#!/bin/bash
# mut.sh OUTDIR PATCH: dump of a scratch copy with the patch
here="$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)"
w="$(mktemp -d /tmp/mut.XXXXXX)"
cp -r /repo/Cargo.toml /repo/Cargo.lock /repo/src "$w/"
(cd "$w" && git init -q . && git apply "$2") || { rm -rf "$w"; exit 1; }
bash "$here/dump.sh" "$1" "$w" 2>/dev/null
rm -rf "$w"
