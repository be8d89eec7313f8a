"""Concrete witnesses: an assignment of the inputs that satisfies all facts of a path.

A violation is reported only with such an assignment, so that an imprecision of
the domain never turns into an alarm.
"""
import random
from lin import *
import lin

class Bad(Exception): pass

def lin_val(x, env):
    n = x.c
    for a, v in x.t:
        y = atom_val(a, env)
        if isinstance(v, int): n += v * y
        else:
            u = y & ((1 << a.w) - 1)
            for i, z in enumerate(v):
                if z and (u >> i) & 1: n += z
    return n

DERIVED = ('poly', 'wrap', 'val', 'div', 'mul', 'rem', 'below', 'wrapk', 'ftoi', 'fcmp')

def derived(a):
    k = a.key
    return isinstance(k, tuple) and k and k[0] in DERIVED

def parts(a):
    """atoms that the value of a derived atom is computed from"""
    k = a.key
    if k[0] == 'poly': return [b for m in k[1] for b, i in m]
    out = []
    if k[0] in ('ftoi', 'fcmp'):
        todo = list(k[1:])
        while todo:
            x = todo.pop()
            if isinstance(x, Lin): out += [b for b, v in x.t]
            elif isinstance(x, tuple): todo += x
        return out
    for x in k[1:]:
        if isinstance(x, Lin): out += [b for b, v in x.t]
    return out

def atom_val(a, env):
    v = env.get(a)
    if v is not None: return v
    k = a.key
    if not derived(a): raise Bad('unassigned %s' % (a,))
    if k[0] == 'poly':
        n = 0
        for m in k[1]:
            p = 1
            for b, i in m: p &= (atom_val(b, env) >> i) & 1
            n ^= p
        v = n
    elif k[0] in ('wrap', 'val'):
        n = lin_val(k[1], env) & ((1 << k[2]) - 1)
        if k[3] and n >> (k[2] - 1): n -= 1 << k[2]
        v = n
    elif k[0] == 'wrapk':
        n = lin_val(k[1], env)
        m = n & ((1 << k[2]) - 1)
        if k[3] and m >> (k[2] - 1): m -= 1 << k[2]
        v = (n - m) >> k[2]
    elif k[0] == 'mul':
        v = lin_val(k[1], env) * lin_val(k[2], env)
    elif k[0] in ('div', 'rem'):
        x = lin_val(k[1], env)
        if isinstance(k[2], int): v = x // k[2]
        else:
            y = lin_val(k[2], env)
            if y == 0: raise Bad('division by zero')
            q = abs(x) // abs(y)
            if (x < 0) != (y < 0): q = -q
            v = q if k[0] == 'div' else x - q * y
    elif k[0] in ('ftoi', 'fcmp'):
        import models
        try:
            if k[0] == 'ftoi': v = models.ftoi(models.fval(k[1], env, lin_val, atom_val), k[2], k[3])
            else: v = 1 if models.fcmp(k[1], models.fval(k[2], env, lin_val, atom_val), models.fval(k[3], env, lin_val, atom_val)) else 0
        except (ValueError, ZeroDivisionError, OverflowError, TypeError): raise Bad('floating point')
    elif k[0] == 'below':
        v = 1 if k[2] < lin_val(k[1], env) else 0
    env[a] = v
    return v

def form_val(f, env, preds):
    if f is True or f is False: return f
    k = f[0]
    if k == 'le': return lin_val(f[1], env) <= 0
    if k == 'eq': return lin_val(f[1], env) == 0
    if k == 'ne': return lin_val(f[1], env) != 0
    if k == 'and': return all(form_val(g, env, preds) for g in f[1])
    if k == 'or': return any(form_val(g, env, preds) for g in f[1])
    if k == 'p': return preds.setdefault(f[1], True)
    if k == 'np': return not preds.setdefault(f[1], False)
    raise Bad('formula %r' % (f,))

def atoms_of(fs):
    ls = []
    for f in fs: f_lins(f, ls)
    seen = set()
    base = []
    todo = [a for x in ls for a, v in x.t]
    while todo:
        a = todo.pop()
        if a in seen: continue
        seen.add(a)
        if derived(a): todo += parts(a)
        else: base.append(a)
        for d in a.defs:
            todo += [b for b, v in d[1].t]
        # symbolic positions inside of element keys
        k = a.key
        if isinstance(k, tuple):
            for x in k:
                if isinstance(x, Lin): todo += [b for b, v in x.t]
    base.sort(key=lambda a: (len([1 for x in a.key if isinstance(x, Lin) and x.t]) if isinstance(a.key, tuple) else 0, a.id))
    return base, seen

def alias_ok(atoms, env):
    """elements of a sequence at equal positions have equal values"""
    m = {}
    for a in atoms:
        k = a.key
        if isinstance(k, tuple) and len(k) >= 3 and k[0] == 'e' and isinstance(k[2], Lin):
            key = ('e', k[1] if not isinstance(k[1], Lin) else lin_val(k[1], env), lin_val(k[2], env)) + tuple(k[3:])
            v = atom_val(a, env)
            if m.setdefault(key, v) != v: return False
    return True

def candidates(facts, a, rnd, odd=False):
    x = A(a)
    lo, hi = facts.bounds(x)
    cs = [lo, hi]
    for c in (0, 1, -1, 2, 3, 4, 5, 7, 8, 16, 31, 32, 255, 256, 65535, 1 << 31, (1 << 31) - 1, 1 << 32, NS - 1, NS):
        if lo <= c <= hi: cs.append(c)
    for _ in range(4): cs.append(rnd.randint(lo, hi))
    if odd:
        for _ in range(4):
            c = rnd.choice((1, -1)) * ((1 << rnd.randint(1, 63)) + rnd.randint(-3, 3))
            if lo <= c <= hi: cs.append(c)
        rnd.shuffle(cs)
        return cs
    # small values first: they are the most natural examples
    cs = sorted(set(cs), key=lambda c: (abs(c) > 70000, rnd.random()))
    # tight bounds by bisection
    return cs
NS = 1000000000

def depth(a): return 1 + max([depth(b) for b in parts(a)], default=0) if derived(a) else 0

def bisect(facts, a):
    """a value that the facts allow, found by halving the range"""
    x = A(a)
    lo, hi = facts.bounds(x)
    f = facts
    while lo < hi:
        m = (lo + hi) >> 1
        g = f.with_(f_leq(x, K(m)))
        if g is not None: f = g; hi = m
        else:
            f = f.with_(f_leq(K(m + 1), x))
            if f is None: return None
            lo = m + 1
    return lo

def witness(facts, tries=6, seed=1, limit=400, prefer=()):
    """assignment {atom: value} (and truth of the opaque predicates), or None"""
    fs = facts.conj()
    base, seen = atoms_of(fs)
    flt = any(derived(a) and a.key[0] in ('ftoi', 'fcmp') for a in seen)
    if flt: tries = 60
    start = {}
    for t in range(tries):
        rnd = random.Random(seed * 1000 + t)
        f = facts
        env = {}
        places = {}
        ok = True
        order = list(base)
        # quotients with few values first: they decide about remainders
        quo = [a for a in seen if derived(a) and a.key[0] == 'div' and isinstance(a.key[2], int)] if t % 2 else []
        if t > 1: rnd.shuffle(order); order.sort(key=lambda a: sum(1 for x in a.key if isinstance(x, Lin) and x.t) if isinstance(a.key, tuple) else 0)
        for a in sorted(quo, key=depth, reverse=True):
            cs = candidates(f, a, rnd, False)[:9]
            if depth(a) > 1: cs = [1, 0, 2, 3, -1]; rnd.shuffle(cs)
            for c in cs:
                g = f.with_(f_eq(A(a), K(c)))
                if g is not None:
                    f = g; break
        for a in order:
            done = False
            k = a.key
            place = None
            if isinstance(k, tuple) and len(k) >= 3 and k[0] == 'e' and isinstance(k[2], Lin):
                # an element of a sequence: the value of the same element read elsewhere
                try:
                    e = dict(env)
                    place = ('e', k[1] if not isinstance(k[1], Lin) else lin_val(k[1], e), lin_val(k[2], e)) + tuple(k[3:])
                except Bad: pass
            same = place is not None and place in places
            for c in [places[place]] if same else candidates(f, a, rnd, flt and t > 0)[:6 if t < 3 else 12]:
                g = f.with_(f_eq(A(a), K(c)))
                if g is not None:
                    f = g; env[a] = c; done = True
                    break
            if not done and not same:
                c = bisect(f, a)
                if c is not None:
                    g = f.with_(f_eq(A(a), K(c)))
                    if g is not None: f = g; env[a] = c; done = True
            if not done:
                ok = False
                break
            if place is not None: places[place] = env[a]
        if len(env) > len(start): start = env
        if not ok: continue
        preds = dict(facts.preds)
        try:
            e = dict(env)
            if all(form_val(g, e, preds) for g in fs) and all(form_val(d, e, preds) for a in list(seen) if not derived(a) for d in a.defs if all(b in e or derived(b) for b, v in d[1].t)) and alias_ok(seen, e):
                return env, preds
        except Bad:
            continue
    return climb(facts, fs, base, seen, start, seed)

def climb(facts, fs, base, seen, env, seed, rounds=500):
    """search by changing single inputs as long as no more conditions fail"""
    if len(base) > 40: return None
    rnd = random.Random(seed)
    env = dict(env)
    rng = {a: facts.bounds(A(a)) for a in base}
    if any(lo > hi for lo, hi in rng.values()): return None
    for a in base:
        if a not in env: env[a] = rng[a][0] if rng[a][0] > 0 else min(rng[a][1], max(0, rng[a][0]))
    defs = [d for a in seen if not derived(a) for d in a.defs]
    def score(env):
        e = dict(env)
        preds = dict(facts.preds)
        n = 0
        try:
            for g in fs:
                if not form_val(g, e, preds): n += 1
            for d in defs:
                if all(b in e or derived(b) for b, v in d[1].t) and not form_val(d, e, preds): n += 1
            if not n and not alias_ok(seen, e): n += 1
        except Bad: return None, None
        return n, preds
    best, preds = score(env)
    if best == 0: return env, preds
    if not base: return None
    for t in range(rounds):
        e = dict(env)
        for a in rnd.sample(base, min(len(base), rnd.choice((1, 1, 2, 3)))):
            lo, hi = rng[a]
            k = rnd.random()
            if k < .4: c = rnd.randint(lo, hi)
            elif k < .7: c = e[a] ^ (1 << rnd.randrange(64 if hi > 1 << 32 else max(1, hi.bit_length())))
            elif k < .85: c = (1 << rnd.randrange(max(1, hi.bit_length()))) + rnd.randint(-2, 2)
            else: c = rnd.choice((lo, hi, 0, 1, -1, hi - 1, lo + 1))
            e[a] = min(hi, max(lo, c))
        n, p = score(e)
        if n is None: continue
        if n == 0: return e, p
        if best is None or n <= best: env, best = e, n
    return None

def show(w):
    env, preds = w
    out = {}
    for a, v in sorted(env.items(), key=lambda z: z[0].id): out[repr(a)] = v
    for p, v in preds.items(): out[show_key(p) if isinstance(p, tuple) else str(p)] = v
    return out
