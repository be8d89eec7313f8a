"""Obligations, verdicts and reports shared by all checks."""
import json, os, re, signal, sys, time, traceback
sys.setrecursionlimit(20000)
from lin import *
from absint import *
import absint, models, witness
from models import value_eq, seq_eq

def short(n):
    n = re.sub(r'\b_IMPL\w*::', '', n)
    return re.sub(r"(?<![\w:])(?:[a-z_][a-z_0-9]*::)+(?=[\w<{])", '', n)

class Anchor(Exception):
    """a part of the program that a property speaks about was not found"""

class Ck:
    def __init__(self, pid, prog, tier='quick'):
        self.pid = pid
        self.p = prog
        self.tier = tier
        self.ip = Interp(prog)
        self.obl = []         # (name, status, detail)
        self.viol = []
        self.refuted = set()        # (key, message, replay data)
        self.notes = []
        self.names = {}
        for f in prog.d['fns']:
            if f['kind'] == 'item': self.names.setdefault(short(f['name']), []).append(f)
        self.done = set()
        self.first = None

    # -- anchors
    def fn(self, name, optional=False):
        c = self.names.get(name, [])
        c = [f for f in c if 'blocks' in f]
        if not c:
            if optional: return None
            raise Anchor('function %s not found' % name)
        loc = [f for f in c if self.p.local(f)]
        return (loc or c)[0]
    def fns(self, rx):
        r = re.compile(rx)
        return [f for n, fs in sorted(self.names.items()) if r.fullmatch(n) for f in fs if 'blocks' in f]
    def ty(self, rx, optional=False):
        for t in self.p.d['types']:
            if short(t['s']) == rx: return t['id']
        if optional: return None
        raise Anchor('type %s not found' % rx)
    def const(self, name, ty=None):
        out = [c for c in self.p.d['consts'] if short(norm(c['name'])) == name or norm(c['name']).endswith('::' + name)]
        if not out: raise Anchor('constant %s not found' % name)
        c = out[0]
        return self.p.decode(c['ty'], c['v'])

    # -- values
    def sym(self, ty, name):
        if isinstance(ty, str): ty = self.ty(ty)
        return Sym(ty, ('s', name))
    def fields(self, ty, variant=0):
        return [f[0] for f in self.p.T[ty]['variants'][variant]['fields']]
    def findex(self, ty, name, variant=0, alt=None):
        fs = self.p.T[ty]['variants'][variant]['fields']
        for i, f in enumerate(fs):
            if f[0] == name: return i
        if alt is not None:
            c = [i for i, f in enumerate(fs) if short(self.p.T[f[1]]['s']) == alt]
            if len(c) == 1: return c[0]
        raise Anchor('field %s of %s not found' % (name, self.p.T[ty]['s']))
    def fty(self, ty, name, variant=0, alt=None):
        return self.p.T[ty]['variants'][variant]['fields'][self.findex(ty, name, variant, alt)][1]
    def fld(self, st, v, ty, name, alt=None, variant=0):
        """field of a structure value"""
        i = self.findex(ty, name, variant, alt)
        v = self.ip.force(v)
        if isinstance(v, Sym): return self.ip.force(self.ip.sym_child(v, variant, i))
        return self.ip.force(self.ip.step_in(st, v, i if self.p.T[ty]['k'] == 'struct' else ('v', variant, i)))
    def leaf(self, v):
        """the only scalar inside of a wrapper"""
        v = self.ip.force(v)
        while isinstance(v, (Agg, Sym)):
            if isinstance(v, Sym):
                t = self.p.T[v.ty]
                if t['k'] == 'struct' and len(t['variants'][0]['fields']) == 1: v = self.ip.force(self.ip.sym_child(v, 0, 0)); continue
                break
            if len(v.f) != 1: break
            v = self.ip.force(v.f[0])
        return v
    def variant(self, ty, name):
        if isinstance(ty, str): ty = self.ty(ty)
        for i, v in enumerate(self.p.T[ty]['variants']):
            if v['name'] == name: return i
        raise Anchor('variant %s of %s not found' % (name, self.p.T[ty]['s']))

    # -- obligations
    def group(self, name, fn):
        """runs one part of a check; an absent anchor leaves it undecided"""
        t0 = time.time()
        try: fn()
        except Anchor as e: self.undecided(name, 'anchor: %s' % e)
        except Undecided as e: self.undecided(name, str(e))
        except RecursionError as e: self.undecided(name, 'recursion')
        except (AttributeError, TypeError, IndexError, KeyError, ValueError, AssertionError) as e:
            if os.environ.get('ABSINT_DEBUG'): raise
            self.undecided(name, 'not modelled: %s %s %s' % (type(e).__name__, e, traceback.format_exc().splitlines()[-3:-1]))
    def ok(self, name, detail=None):
        self.obl.append((name, 'discharged', detail))
    def undecided(self, name, why):
        self.obl.append((name, 'undecided', why))
    def violation(self, name, msg, where=None, st=None, wit=None):
        self.obl.append((name, 'violated', msg))
        key = '%s: %s' % (name, msg)
        if key in self.done: return
        self.done.add(key)
        d = {'property': self.pid, 'obligation': name, 'what': msg, 'where': where}
        if st is not None: d['path'] = st.path_spans()[-60:]
        if wit is not None: d['witness'] = witness.show(wit)
        self.viol.append((key, d))
        if self.first is not None: self.first(key)
    def cases(self, st, fn):
        """(state, fn(state)) for each case split that fn asks for"""
        work = [st.copy()]
        n = 0
        while work:
            s = work.pop()
            try:
                v = fn(s)
            except Dead: continue
            except Fork as e:
                n += 1
                if n > 3000: raise Undecided('too many cases in a postcondition')
                for f in e.forms:
                    for g in (f[1] if isinstance(f, tuple) and f[0] == 'or' and len(f[1]) <= 4 else (f,)):
                        c = s.copy()
                        if c.assume(g): work.append(c)
                continue
            yield s, v
    def require(self, name, st, fn, msg, where=None, assume=()):
        """the formula fn(state) holds in the state; fn may also return a list of (formula, text)"""
        st = st.copy()
        for f in assume:
            if not st.assume(f): return True
        good = True
        try:
            for s, v in self.cases(st, fn):
                for f, text in (v if isinstance(v, list) else [(v, None)]):
                    if s.facts.holds(f): continue
                    good = False
                    self.refute(name, s, f, msg + (': ' + text if text else ''), where)
        except Undecided as e:
            good = False
            self.undecided(name, 'postcondition: %s' % e)
        return good
    def refute(self, name, s, f, msg, where):
        if s.imprecise:
            return self.undecided(name, '%s (on an over-approximated path: %s)' % (msg, s.imprecise))
        if (name, msg) in self.refuted: return
        n = s.facts.with_(f_not(f))
        if n is None: return self.undecided(name, msg + ' (not shown)')
        for c in split_ors(n):
            if c.ors: continue
            w = witness.witness(c)
            if w is not None:
                self.refuted.add((name, msg))
                return self.violation(name, msg, where, s, w)
        return self.undecided(name, '%s (not shown, and no witness)' % msg)
    def prove(self, name, outs, post, panic=None, msg='postcondition fails'):
        """every outcome satisfies post(state, value) -> formula or list of (formula, text)"""
        good = True
        n = 0
        for o in outs:
            n += 1
            if o.kind == 'undecided':
                good = False
                self.undecided(name, o.msg)
            elif o.kind == 'panic':
                if panic is not None and panic(o): continue
                good = False
                self.refute(name, o.st, False, 'panics: %s' % o.msg, o.msg)
            elif o.kind == 'ret':
                good &= self.require(name, o.st, lambda s, o=o: post(s, o.value), msg)
            else:
                good = False
                self.undecided(name, 'path ends with %s' % o.kind)
        if not outs:
            self.undecided(name, 'no path')
            return False
        if good: self.ok(name, '%d paths' % n)
        return good
    def run(self, f, args, st=None, facts=()):
        st = st or State()
        if facts:
            st = st.copy()
            for g in facts:
                if not st.assume(g): return []
        return self.ip.run_fn(st, f, tuple(args))

# ---------------------------------------------------------------- driver

def load_dump(path):
    return Prog(json.load(open(path)))

TECH = 'path-sensitive abstract interpretation of the MIR (relational linear and bit-provenance domain); no execution'

class Deadline(BaseException): pass

AFTER = 90      # seconds for further violations

def main(argv):
    import checks
    pid, dump, out, known = argv[0], argv[1], argv[2], argv[3]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    prog = load_dump(dump)
    ck = Ck(pid, prog, tier)
    spec = checks.CHECKS[pid]
    def late(*a): raise Deadline()
    signal.signal(signal.SIGALRM, late)
    signal.alarm(int(os.environ.get('VERIF_DEADLINE', '700' if tier == 'quick' else '7000')))
    known_keys = read_known(known, pid)
    def first(key):
        # what is found later only adds to the report
        if key in known_keys: return
        ck.first = None
        left = signal.alarm(0)
        signal.alarm(max(1, min(left, AFTER)))
    ck.first = first
    try: spec(ck)
    except Deadline: ck.undecided('all', 'time limit reached')
    except Exception as e:
        if os.environ.get('ABSINT_DEBUG'): raise
        ck.undecided('all', 'anchor or analysis: %r' % (e,))
    signal.alarm(0)
    viol = [v for v in ck.viol if v[0] not in known_keys]
    found = [v for v in ck.viol if v[0] in known_keys]
    rdir = os.path.join(os.path.dirname(out), 'replay')
    os.makedirs(rdir, exist_ok=True)
    for fn in os.listdir(rdir):
        if fn.startswith(pid + '-'): os.remove(os.path.join(rdir, fn))
    for key, d in found:
        print('KNOWN-FINDING: property=%s %s' % (pid, key))
    paths = []
    for i, (key, d) in enumerate(viol[:20]):
        path = os.path.join(rdir, '%s-%d.json' % (pid, i))
        json.dump(d, open(path, 'w'), indent=1, default=str)
        paths.append(path)
        print('VIOLATION property=%s replay=%s' % (pid, path))
        print('  ' + key[:600])
        if d.get('where'): print('  at ' + str(d['where']))
        if d.get('path'): print('  path ' + ' -> '.join(d['path'][-8:]))
        if d.get('witness'): print('  witness ' + ', '.join('%s=%s' % z for z in list(d['witness'].items())[:24])[:900])
    count = lambda s: sum(1 for o in ck.obl if o[1] == s)
    und = [o for o in ck.obl if o[1] == 'undecided']
    for o in und[:20]: print('UNDECIDED %s: %s' % (o[0], str(o[2])[:300]))
    if not ck.obl: und = [('all', 'undecided', 'no obligation was generated')]
    names = sorted(set(o[0] for o in ck.obl))
    cov = {
        'explanation': '%s Rule: %s' % (spec.__doc__.strip() if spec.__doc__ else '', TECH),
        'obligations': len(ck.obl), 'discharged': count('discharged'), 'undecided': len(und), 'violated': count('violated'),
        'paths': ck.ip.stats['paths'], 'steps': ck.ip.stats['steps'], 'case_splits': ck.ip.stats['forks'],
        'functions_analysed': sorted(short(norm(x)) for x in ck.ip.stats['fns'])[:150],
        'obligation_names': names[:200],
        'undecided_obligations': ['%s: %s' % (o[0], str(o[2])[:200]) for o in und[:30]],
    }
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'other', 'coverage': cov,
          'wall_s': round(time.time() - t0, 2), 'violations': [v[0] for v in viol[:20]],
          'assumptions': ['library functions outside of the crate behave as modelled in analysis/models.py', 'the compiler translates MIR faithfully'] + ck.notes}
    json.dump(ev, open(out, 'w'), indent=1, default=str)
    print('%s: %d obligations, %d discharged, %d undecided, %d violated, %d known; %d paths, %.1fs' % (
        pid, len(ck.obl), count('discharged'), len(und), len(viol), len(found), ck.ip.stats['paths'], time.time() - t0))
    return 1 if viol else 0

def read_known(path, pid):
    keys = set()
    try:
        for l in open(path):
            l = l.strip()
            m = re.match(r'finding: property=(\w+) key=(.*)$', l)
            if m and m.group(1) == pid: keys.add(m.group(2))
    except OSError: pass
    return keys

if __name__ == '__main__':
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    sys.exit(main(sys.argv[1:]))
