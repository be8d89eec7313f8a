#!/usr/bin/env python3
"""mdump.py FILE ID OUT: the dump of /repo with the edit of this id"""
import sys, os, subprocess, shutil, importlib.util
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = importlib.util.spec_from_file_location('m', sys.argv[1]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
w = '/tmp/mdump.%d' % os.getpid(); os.makedirs(w)
for x in ('Cargo.toml', 'Cargo.lock'): shutil.copy('/repo/' + x, w)
subprocess.run(['cp', '-a', '/repo/src', w])
for i, _, edits in m.M:
    if i == sys.argv[2]:
        for f, a, b in edits:
            p = '%s/src/%s' % (w, f); s = open(p).read(); assert a in s, a; open(p, 'w').write(s.replace(a, b, 1))
subprocess.run(['bash', here + '/dump.sh', sys.argv[3], w], capture_output=True, text=True)
shutil.rmtree(w)
