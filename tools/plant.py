#!/usr/bin/env python3
"""Plants a bug: tools/plant.py SPEC.py [ID...]  (SPEC defines BUGS: id -> dict(property, needs, breaks, edits=[(file, old, new)], at=file, demo=rust test module body))
Works in a scratch copy; keeps the bug under seeded/<id> when it compiles, passes the stable tests and its demo tells it apart."""
import json, os, shutil, subprocess, sys, tempfile
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# run in /repo: exit 0 when the behaviour is right
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
work="$(mktemp -d /tmp/demo.XXXXXX)"
trap 'rm -rf "$work"' EXIT
cp -r Cargo.toml Cargo.lock src "$work/"
cat "$here/demo.rs" >> "$work/%s"
cd "$work" || exit 2
CARGO_TARGET_DIR="$work/target" timeout 280 cargo test --offline --lib planted_demo 2>&1 | tail -30
rc=${PIPESTATUS[0]}
exit $rc
'''
def sh(cmd, cwd, **k): return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, **k)
def results(w):
    r = sh('cargo test --offline --no-fail-fast 2>&1', w)
    ok = set(l.split()[1] for l in r.stdout.splitlines() if l.startswith('test ') and l.endswith(' ok'))
    bad = [l for l in r.stdout.splitlines() if l.startswith('test ') and 'FAILED' in l]
    return r.returncode, ok, bad, r.stdout
def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    ids = sys.argv[2:] or list(ns['BUGS'])
    w = tempfile.mkdtemp(prefix='plant.', dir='/tmp')
    try:
        sh('cp -a /repo/. %s/' % w, '/')
        sh('git checkout -q -- . && git clean -fdq -e target', w)
        for i in ids:
            b = ns['BUGS'][i]
            sh('git checkout -q -- .', w)
            d = os.path.join(here, 'seeded', i)
            if os.path.isdir(d): shutil.rmtree(d)
            stage = tempfile.mkdtemp(prefix='stage.', dir='/tmp')
            open(os.path.join(stage, 'demo.sh'), 'w').write(DEMO % b['at'])
            open(os.path.join(stage, 'demo.rs'), 'w').write('\n#[cfg(test)]\nmod planted_demo {\n    #![allow(unused_imports)]\n    use super::*;\n' + b['demo'] + '}\n')
            r0 = sh('bash %s/demo.sh' % stage, w)
            okf = True
            for f, old, new in b['edits']:
                s = open(os.path.join(w, f)).read()
                if s.count(old) < 1: print(i, 'EDIT NOT FOUND', f, old[:60]); okf = False; break
                open(os.path.join(w, f), 'w').write(s.replace(old, new, 1))
            if not okf: shutil.rmtree(stage); continue
            patch = sh('git diff -- src', w).stdout
            rc, ok, bad, out = results(w)
            r1 = sh('bash %s/demo.sh' % stage, w)
            good = r0.returncode == 0 and r1.returncode != 0 and rc == 0 and 'error: could not compile' not in r1.stdout
            print(i, 'KEPT' if good else 'REJECTED', 'demo %d -> %d, tests %d ok, rc %d %s' % (r0.returncode, r1.returncode, len(ok), rc, bad[:3]))
            if not good:
                if r0.returncode: print(r0.stdout[-1500:])
                if rc: print(out[-600:])
                if 'could not compile' in r1.stdout: print(r1.stdout[-1500:])
            else:
                os.makedirs(d)
                open(os.path.join(d, 'patch.diff'), 'w').write(patch)
                shutil.copy(os.path.join(stage, 'demo.sh'), d); shutil.copy(os.path.join(stage, 'demo.rs'), d)
                json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
            shutil.rmtree(stage)
    finally: shutil.rmtree(w)
main()
