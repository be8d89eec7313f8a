#!/bin/bash
# Builds the MIR dumper and analyses the current tree once, so that the checks start from warm caches.
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
mkdir -p "$here/.build" "$here/evidence"
bash "$here/dump.sh" "$here/.build/setup.json" /repo >/dev/null 2>&1
rm -f "$here/.build/setup.json"
exit 0
