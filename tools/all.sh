#!/bin/bash
# all.sh DUMP [ID...]: every check on one dump, in parallel
here="$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)"
d="$1"; shift
out=$(mktemp -d /tmp/all.XXXXXX)
ids="${*:-$(cd "$here/analysis" && python3 -c 'import checks; print(*sorted(checks.CHECKS))')}"
one() { timeout 890 python3 "$1/analysis/check.py" $3 "$2" "$4/$3.json" "$1/known_findings.txt" > "$4/$3.log" 2>&1; echo "rc=$?" >> "$4/$3.log"; }
export -f one
echo $ids | tr ' ' '\n' | xargs -P 7 -I{} bash -c "one $here $d {} $out"
for i in $ids; do grep 'VIOL\|UNDEC\|Error' "$out/$i.log" | sort | uniq -c | sort -rn | head -${N:-4} | cut -c1-${W:-220}; tail -2 "$out/$i.log" | tr '\n' ' '; echo; done
rm -r "$out"
