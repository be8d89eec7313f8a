#!/usr/bin/env python3
"""corpus.py FILE [REGEX]: applies each edit of FILE (M: list of (id, property, edits)) to a scratch copy of
/repo, runs the existing tests and the check of the property. An id that begins with '=' keeps the behaviour."""
import sys, os, re, shutil, subprocess, importlib.util, json
from concurrent.futures import ThreadPoolExecutor
from queue import Queue
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = importlib.util.spec_from_file_location('m', sys.argv[1]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
rx = re.compile(sys.argv[2]) if len(sys.argv) > 2 else None
N = int(os.environ.get('N', '6'))
q = Queue()
base = '/tmp/corpus.%d' % os.getpid()
for i in range(N):
    w = '%s/%d' % (base, i)
    os.makedirs(w)
    for x in ('Cargo.toml', 'Cargo.lock'): shutil.copy('/repo/' + x, w)
    subprocess.run(['cp', '-a', '/repo/src', w])
    subprocess.run(['cp', '-a', '/repo/target', w]) if os.path.isdir('/repo/target') else None
    q.put(w)
def sh(c, cwd, t=900, env=None):
    try: return subprocess.run(c, cwd=cwd, shell=True, capture_output=True, text=True, timeout=t, env=env)
    except subprocess.TimeoutExpired: return None
def one(e):
    i, props, edits = e
    if isinstance(props, str): props = [props]
    w = q.get()
    try:
        subprocess.run(['rm', '-rf', w + '/src']); subprocess.run(['cp', '-a', '/repo/src', w])
        for f, a, b in edits:
            p = '%s/src/%s' % (w, f)
            s = open(p).read()
            if s.count(a) < 1: return '%s EDIT NOT FOUND %s' % (i, a[:40])
            open(p, 'w').write(s.replace(a, b, 1))
        sh('find src -name "*.rs" | xargs touch', w)
        t = sh('cargo test --offline --lib -q 2>&1 | tail -60', w, 300)
        tests = 'HANG' if t is None else 'ok' if 'test result: ok' in t.stdout else 'COMPILE' if 'could not compile' in t.stdout else 'TESTS-FAIL'
        if tests == 'COMPILE': return '%-30s does not compile: %s' % (i, ' '.join(x for x in t.stdout.split('\n') if x.startswith('error'))[:300])
        out = []
        for p in props:
            env = dict(os.environ, VERIF_EVIDENCE=w + '/ev')
            os.makedirs(w + '/ev', exist_ok=True)
            r = sh('bash %s/check.sh %s %s' % (here, p, w), w, 900, env)
            if r is None: out.append('%s TIMEOUT' % p); continue
            ls = r.stdout.split('\n')
            k = next((j for j, x in enumerate(ls) if x.startswith('VIOLATION')), None)
            und = [x for x in ls if x.startswith('UNDECIDED')]
            good = (r.returncode == 0) == i.startswith('=')
            out.append('%s %s rc=%d%s%s' % ('  ' if good and not und else '!!' if not good else ' u', p, r.returncode, ' | ' + ls[k + 1].strip()[:110] if k is not None else '', ' | %d %s' % (len(und), und[0][:int(os.environ.get('W', '230'))]) if und and (r.returncode == 0) else ''))
        return '%-30s %s %s' % (i, '' if tests == 'ok' else tests, '; '.join(out))
    finally: q.put(w)
es = [e for e in m.M if rx is None or rx.search(e[0]) or rx.search(str(e[1]))]
with ThreadPoolExecutor(N) as ex:
    from concurrent.futures import as_completed
    for f in as_completed([ex.submit(one, e) for e in es]): print(f.result(), flush=True)
shutil.rmtree(base)
