"""Integer and boolean abstract domain.

Integers are canonical linear forms over atoms (and over single bits of atoms),
so that a value keeps track of exactly which input bits it is made of.
Conditions are linear inequalities; entailment is decided by interval
propagation and integer-tightened Fourier-Motzkin elimination.
"""
from math import gcd

# ---------------------------------------------------------------- atoms

class Atom:
    __slots__ = ('id', 'key', 'w', 'signed', 'lo', 'hi', 'defs', 'nice')
    def __repr__(self):
        return show_key(self.key)

_atoms = {}
_all_atoms = []

def atom(key, w, signed=False, lo=None, hi=None, defs=None):
    a = _atoms.get(key)
    if a is None:
        a = Atom()
        a.id = len(_all_atoms)
        a.key = key
        a.w = w
        a.signed = signed
        tlo, thi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
        a.lo = tlo if lo is None else lo
        a.hi = thi if hi is None else hi
        a.defs = ()
        _atoms[key] = a
        _all_atoms.append(a)
        if defs is not None:
            a.defs = tuple(defs(a))
    return a

def show_key(k):
    if isinstance(k, tuple):
        if k and k[0] == 'e':
            return '%s[%s]%s' % (show_key(k[1]), k[2], ''.join('.' + show_key(x) for x in k[3:]))
        if k and k[0] == 's':
            return '.'.join(show_key(x) for x in k[1:])
        return '(' + ' '.join(show_key(x) for x in k) + ')'
    if isinstance(k, frozenset):
        return '{' + ' ^ '.join(sorted('&'.join(sorted('%r:%d' % (b[0], b[1]) for b in m)) or '1' for m in k)) + '}'
    return str(k)

_counter = [0]
def fresh_name(p='t'):
    _counter[0] += 1
    return '%s%d' % (p, _counter[0])

# ---------------------------------------------------------------- linear forms

class Lin:
    __slots__ = ('c', 't', '_h', '_r')
    def __init__(self, c, t):
        self.c = c
        self.t = t
        self._h = None
        self._r = None
    def __hash__(self):
        if self._h is None:
            self._h = hash((self.c, tuple((a.id, v) for a, v in self.t)))
        return self._h
    def __eq__(self, o):
        if self is o: return True
        return isinstance(o, Lin) and self.c == o.c and self.t == o.t
    def __ne__(self, o):
        return not self == o
    def __repr__(self):
        s = []
        for a, v in self.t:
            if isinstance(v, int):
                s.append('%s%r' % ('' if v == 1 else '-' if v == -1 else '%d*' % v, a))
            else:
                for lo, n, c in runs(a, v):
                    s.append('%s%r[%d..%d]' % ('' if c == 1 else '%d*' % c, a, lo, lo + n))
        if self.c or not s:
            s.append(str(self.c))
        return ' + '.join(s)
    @property
    def const(self):
        return self.c if not self.t else None
    def __add__(self, o): return add(self, o)
    def __sub__(self, o): return add(self, o, -1)
    def __neg__(self): return scale(self, -1)

ZERO = Lin(0, ())
ONE = Lin(1, ())
_consts = {}

def K(n):
    r = _consts.get(n)
    if r is None:
        r = Lin(n, ())
        if -1025 < n < 70000:
            _consts[n] = r
    return r

def A(a):
    return Lin(0, ((a, 1),))

def sym(name, w=64, signed=False, lo=None, hi=None):
    return A(atom(('s', name) if not isinstance(name, tuple) else name, w, signed, lo, hi))

def expand(a, v):
    if isinstance(v, tuple):
        return v
    r = [v << i for i in range(a.w)]
    if a.signed:
        r[-1] = -r[-1]
    return tuple(r)

def norm_vec(a, v):
    """vector of bit coefficients -> scalar if it is a multiple of the atom, None if zero"""
    c = v[0]
    if c == 0:
        for x in v:
            if x: return tuple(v)
        return None
    n = a.w - 1 if a.signed else a.w
    for i in range(1, n):
        if v[i] != c << i: return tuple(v)
    if a.signed and (v[-1] != -(c << (a.w - 1)) if a.w > 1 else v[-1] != -c): return tuple(v)
    return c

def runs(a, v):
    """maximal runs (lo, len, coef) of a bit coefficient vector"""
    v = expand(a, v)
    i = 0
    out = []
    while i < a.w:
        if v[i] == 0:
            i += 1
            continue
        j = i + 1
        while j < a.w and v[j] == v[j - 1] * 2: j += 1
        out.append((i, j - i, v[i]))
        i = j
    return out

def add(x, y, k=1):
    if not y.t:
        if y.c == 0: return x
        return Lin(x.c + k * y.c, x.t) if x.t else K(x.c + k * y.c)
    if not x.t and k == 1:
        return add(y, x) if x.c else y
    out = []
    i = j = 0
    xt, yt = x.t, y.t
    while i < len(xt) or j < len(yt):
        if j >= len(yt) or (i < len(xt) and xt[i][0].id < yt[j][0].id):
            out.append(xt[i]); i += 1
        elif i >= len(xt) or yt[j][0].id < xt[i][0].id:
            a, v = yt[j]; j += 1
            out.append((a, v * k if isinstance(v, int) else tuple(z * k for z in v)))
        else:
            a, v = xt[i]; w = yt[j][1]; i += 1; j += 1
            if isinstance(v, int) and isinstance(w, int):
                s = v + k * w
                if s: out.append((a, s))
            else:
                v = expand(a, v); w = expand(a, w)
                s = norm_vec(a, [p + k * q for p, q in zip(v, w)])
                if s is not None: out.append((a, s))
    if not out: return K(x.c + k * y.c)
    return Lin(x.c + k * y.c, tuple(out))

def scale(x, k):
    if k == 1: return x
    if k == 0: return ZERO
    if not x.t: return K(x.c * k)
    return Lin(x.c * k, tuple((a, v * k if isinstance(v, int) else tuple(z * k for z in v)) for a, v in x.t))

def rng(x):
    if x._r is None:
        lo = hi = x.c
        for a, v in x.t:
            if isinstance(v, int):
                if v > 0:
                    lo += v * a.lo; hi += v * a.hi
                else:
                    lo += v * a.hi; hi += v * a.lo
            else:
                for z in v:
                    if z > 0: hi += z
                    else: lo += z
        x._r = (lo, hi)
    return x._r

def content(x):
    g = 0
    for a, v in x.t:
        if isinstance(v, int): g = gcd(g, v)
        else:
            for z in v: g = gcd(g, z)
    return g

def divexact(x, g):
    return Lin(x.c // g, tuple((a, v // g if isinstance(v, int) else tuple(z // g for z in v)) for a, v in x.t))

# ---------------------------------------------------------------- bits
# A bit is 0, 1 or a polynomial over GF(2): frozenset of monomials, a monomial is a frozenset of (atom, index).

P1 = frozenset([frozenset()])

def pvar(a, i):
    if a.key[0] == 'poly': return a.key[1]
    return frozenset([frozenset([(a, i)])])

def pnorm(p):
    if not p: return 0
    if p == P1: return 1
    return p

def pxor(p, q):
    if p == 0: return q
    if q == 0: return p
    p = P1 if p == 1 else p
    q = P1 if q == 1 else q
    return pnorm(p ^ q)

def pand(p, q):
    if p == 0 or q == 0: return 0
    if p == 1: return q
    if q == 1: return p
    r = set()
    for m in p:
        for n in q:
            r ^= {m | n}
    return pnorm(frozenset(r))

def pnot(p): return pxor(p, 1)
def por(p, q): return pxor(pxor(p, q), pand(p, q))

def v2(n):
    return (n & -n).bit_length() - 1

def expand_even(v, g):
    m = (1 << g) - 1
    return not (v & m) if isinstance(v, int) else not any(z & m for z in v)
def exact_div(x, k):
    if k == 1: return x
    if x.c % k: return None
    t = []
    for a, v in x.t:
        v = v // k if isinstance(v, int) else norm_vec(a, [z // k for z in v])
        t.append((a, v))
    return Lin(x.c // k, tuple(t))

BITS_OF = {}

def below(s, i):
    """the bit i < s"""
    lo, hi = rng(s)
    if i < lo: return 1
    if i >= hi: return 0
    def defs(b):
        return [('le', s - K(i) + scale(A(b), i - hi)), ('le', K(lo) - s + scale(A(b), i + 1 - lo))]
    return pvar(atom(('below', s, i), 1, False, defs=defs), 0)

def pow2(s, w):
    """1 << s for 0 <= s < w"""
    b = [below(s, i) for i in range(w)]
    r = from_bits(b) + ONE
    BITS_OF[r] = [pxor(p, q) for p, q in zip([1] + b, b)]
    return r

def to_bits(x, w):
    """w low bits of the two's complement representation of x, or None"""
    z = BITS_OF.get(x)
    if z is not None: return (z + [0] * w)[:w]
    n = x.c
    buckets = {}
    for a, v in x.t:
        e = expand(a, v)
        for i, z in enumerate(e):
            if z:
                buckets.setdefault(v2(z), []).append((a, i, z))
    out = []
    for i in range(w):
        odd = buckets.pop(i, None)
        cb = (n >> i) & 1
        if not odd:
            out.append(cb)
            if cb: n -= 1 << i
            continue
        if len(odd) > 1:
            return None
        a, j, z = odd[0]
        if cb:
            out.append(pnot(pvar(a, j)))
            n -= 1 << i
            z += 1 << i
        else:
            out.append(pvar(a, j))
            z -= 1 << i
        if z:
            buckets.setdefault(v2(z), []).append((a, j, z))
    return out

def _poly_defs(a):
    p = a.key[1]
    y = A(a)
    out = []
    if len(p) == 1:
        (m,) = p
        tot = K(1 - len(m))
        for (b, i) in m:
            xb = bit_lin(b, i)
            out.append(('le', y - xb))
            tot = tot + xb
        out.append(('le', tot - y))
    elif len(p) == 2 and all(len(m) == 1 for m in p):
        (m1, m2) = p
        ((a1, i1),) = m1
        ((a2, i2),) = m2
        u, v = bit_lin(a1, i1), bit_lin(a2, i2)
        out += [('le', y - u - v), ('le', u - v - y), ('le', v - u - y), ('le', y + u + v - K(2))]
    return out

def bit_lin(a, i):
    if a.w == 1: return A(a)
    v = [0] * a.w
    v[i] = 1
    return Lin(0, ((a, tuple(v)),))

def from_bits(bits, signed=False):
    c = 0
    vec = {}
    for i, p in enumerate(bits):
        wt = 1 << i
        if signed and i == len(bits) - 1: wt = -wt
        if p == 0: continue
        if p == 1:
            c += wt
            continue
        neg = frozenset() in p
        if neg:
            p = p ^ P1
            c += wt
            wt = -wt
        if len(p) == 1:
            (m,) = p
            if len(m) == 1:
                ((a, j),) = m
                v = vec.get(a)
                if v is None: v = vec[a] = [0] * a.w
                v[j] += wt
                continue
        a = atom(('poly', p), 1, False, defs=_poly_defs)
        v = vec.get(a)
        if v is None: v = vec[a] = [0]
        v[0] += wt
    t = []
    for a in sorted(vec, key=lambda z: z.id):
        s = norm_vec(a, vec[a])
        if s is not None: t.append((a, s))
    return Lin(c, tuple(t)) if t else K(c)

# ---------------------------------------------------------------- formulas

def f_le(x):
    """x <= 0"""
    lo, hi = rng(x)
    if hi <= 0: return True
    if lo > 0: return False
    if lo == 0 and hi == 1 and len(x.t) == 1: return f_eq0(x)
    g = content(x)
    if g > 1:
        x = Lin(-((-x.c) // g), tuple((a, v // g if isinstance(v, int) else tuple(z // g for z in v)) for a, v in x.t))
    return ('le', x)

def f_lt(a, b): return f_le(a - b + ONE)
def f_leq(a, b): return f_le(a - b)

def _sgn(x):
    a, v = x.t[0]
    if isinstance(v, int): return v
    for z in v:
        if z: return z

def f_eq0(x):
    if not x.t: return x.c == 0
    lo, hi = rng(x)
    if lo > 0 or hi < 0: return False
    g = content(x)
    if x.c % g: return False
    if g > 1: x = divexact(x, g)
    if _sgn(x) < 0: x = scale(x, -1)
    # a sum of disjoint bit fields compared with a constant is decided field by field
    if len(x.t) > 1 or not isinstance(x.t[0][1], int):
        s = _split_eq(x)
        if s is not None: return s
    return ('eq', x)

def _split_eq(x):
    seen = set()
    fields = []
    for a, v in x.t:
        if isinstance(v, int):
            if a.signed or a.lo != 0 or a.hi != (1 << a.w) - 1:
                return None
            rr = [(0, a.w, v)]
        else:
            rr = runs(a, v)
        for lo, n, c in rr:
            if c <= 0 or c & (c - 1): return None
            s = c.bit_length() - 1
            for b in range(s, s + n):
                if b in seen: return None
                seen.add(b)
            fields.append((a, lo, n, s))
    target = -x.c
    if target < 0: return False
    if len(fields) < 2: return None
    out = []
    for a, lo, n, s in fields:
        want = (target >> s) & ((1 << n) - 1)
        target -= want << s
        if lo == 0 and n == a.w:
            y = A(a)
        else:
            v = [0] * a.w
            for i in range(n): v[lo + i] = 1 << i
            y = Lin(0, ((a, tuple(v)),))
        out.append(('eq', y - K(want)) if not (n == 1 and False) else None)
    if target != 0: return False
    return f_and(*out)

def f_ne0(x): return f_not(f_eq0(x))
def f_eq(a, b): return f_eq0(a - b)

def f_not(f):
    if f is True: return False
    if f is False: return True
    k = f[0]
    if k == 'le': return f_le(scale(f[1], -1) + ONE)
    if k == 'eq':
        x = f[1]
        # bits: x != 0  <=>  x == 1
        r = rng(x)
        if r == (0, 1): return f_eq0(x - ONE)
        if r == (-1, 0): return f_eq0(x + ONE)
        return ('ne', x)
    if k == 'ne': return ('eq', f[1])
    if k == 'and': return f_or(*[f_not(g) for g in f[1]])
    if k == 'or': return f_and(*[f_not(g) for g in f[1]])
    if k == 'p': return ('np', f[1])
    if k == 'np': return ('p', f[1])
    raise ValueError(f)

def f_and(*fs):
    out = []
    for f in fs:
        if f is False: return False
        if f is True: continue
        if f[0] == 'and':
            for g in f[1]:
                if g not in out: out.append(g)
        elif f not in out: out.append(f)
    if not out: return True
    if len(out) == 1: return out[0]
    return ('and', tuple(out))

def f_or(*fs):
    out = []
    for f in fs:
        if f is True: return True
        if f is False: continue
        if f[0] == 'or':
            for g in f[1]:
                if g not in out: out.append(g)
        elif f not in out: out.append(f)
    if not out: return False
    if len(out) == 1: return out[0]
    return ('or', tuple(out))

def f_iff(f, g):
    return f_or(f_and(f, g), f_and(f_not(f), f_not(g)))

def f_ite(c, f, g):
    return f_or(f_and(c, f), f_and(f_not(c), g))

def bit_formula(p):
    """formula for bit p == 1"""
    if p == 0: return False
    if p == 1: return True
    return f_eq0(from_bits([p]) - ONE)

def f_lins(f, out):
    if f is True or f is False: return out
    k = f[0]
    if k in ('le', 'eq', 'ne'): out.append(f[1])
    elif k in ('and', 'or'):
        for g in f[1]: f_lins(g, out)
    return out

# ---------------------------------------------------------------- feasibility

class Sys:
    """A conjunction of linear constraints over integer variables."""
    LIMIT = 260

def _collect(lins):
    """Chooses variables: an atom, or runs of its bits where some constraint looks at single bits"""
    breaks = {}
    for x in lins:
        for a, v in x.t:
            b = breaks.get(a)
            if isinstance(v, int):
                if b is None: breaks[a] = None
                continue
            if b is None: b = breaks[a] = set()
            for i in range(1, a.w):
                if v[i] != 2 * v[i - 1]: b.add(i)
    plan = {}
    for a, b in breaks.items():
        if b is None:
            plan[a] = None
        else:
            if a.signed: b.add(a.w - 1)
            cuts = [0] + sorted(b) + [a.w]
            plan[a] = [(cuts[i], cuts[i + 1] - cuts[i]) for i in range(len(cuts) - 1)]
    return plan

def _row(x, plan):
    r = {}
    for a, v in x.t:
        p = plan[a]
        if p is None:
            r[a] = v
        else:
            e = expand(a, v)
            for lo, n in p:
                if e[lo]: r[(a, lo, n)] = e[lo]
    return r

def feasible_rows(eqs, les, nes, bounds, depth=0):
    """eqs/les: list of (row, const). bounds: var -> [lo, hi]. Returns False if surely infeasible."""
    eqs = [(dict(r), c) for r, c in eqs]
    les = [(dict(r), c) for r, c in les]
    nes = [(dict(r), c) for r, c in nes]
    bounds = {v: list(b) for v, b in bounds.items()}

    def prop():
        changed = True
        rounds = 0
        while changed and rounds < 12:
            changed = False
            rounds += 1
            for kind, rows in (('e', eqs), ('l', les)):
                for r, c in rows:
                    for sgn in ((1,) if kind == 'l' else (1, -1)):
                        # sum sgn*r*v + sgn*c <= 0
                        mn = sgn * c
                        inf = 0
                        for v, k in r.items():
                            k *= sgn
                            b = bounds[v][0] if k > 0 else bounds[v][1]
                            mn += k * b
                        if mn > 0: return False
                        for v, k in r.items():
                            k *= sgn
                            b = bounds[v]
                            rest = mn - k * (b[0] if k > 0 else b[1])
                            # k*v <= -rest
                            if k > 0:
                                h = (-rest) // k
                                if h < b[1]:
                                    b[1] = h; changed = True
                            else:
                                l = -((-rest) // (-k))
                                if l > b[0]:
                                    b[0] = l; changed = True
                            if b[0] > b[1]: return False
            for r, c in nes:
                free = [v for v in r if bounds[v][0] != bounds[v][1]]
                if len(free) > 1: continue
                val = c + sum(k * bounds[v][0] for v, k in r.items() if bounds[v][0] == bounds[v][1])
                if not free:
                    if val == 0: return False
                    continue
                v = free[0]; k = r[v]
                if val % k: continue
                x = -val // k
                b = bounds[v]
                if b[0] == x: b[0] += 1; changed = True
                if b[1] == x: b[1] -= 1; changed = True
                if b[0] > b[1]: return False
        return True
    if not prop(): return False
    # substitute fixed variables
    def simp():
        fixed = {v: b[0] for v, b in bounds.items() if b[0] == b[1]}
        def s(rows):
            out = []
            for r, c in rows:
                n = {}
                for v, k in r.items():
                    if v in fixed: c += k * fixed[v]
                    else: n[v] = k
                out.append((n, c))
            return out
        return s(eqs), s(les), s(nes)
    eqs, les, nes = simp()
    # equalities
    work = list(eqs)
    done = []
    fixed_b = []
    guard = 0
    while work and guard < 400:
        guard += 1
        r, c = work.pop()
        r = {v: k for v, k in r.items() if k}
        if not r:
            if c != 0: return False
            continue
        g = 0
        for k in r.values(): g = gcd(g, k)
        if c % g: return False
        if g > 1: r = {v: k // g for v, k in r.items()}; c //= g
        pv = None
        for v, k in r.items():
            if abs(k) == 1:
                pv = v; break
        if pv is None:
            done.append((r, c))
            continue
        k = r.pop(pv)
        # pv = -(rest + c)/k
        sub = {v: -x * k for v, x in r.items()}
        sc = -c * k
        b = bounds[pv]
        def put(rows):
            out = []
            for rr, cc in rows:
                if pv in rr:
                    q = rr[pv]
                    n = {v: x for v, x in rr.items() if v is not pv and v != pv}
                    for v, x in sub.items():
                        t = n.get(v, 0) + q * x
                        if t: n[v] = t
                        else: n.pop(v, None)
                    out.append((n, cc + q * sc))
                else: out.append((rr, cc))
            return out
        work = put(work); done = put(done); les = put(les); nes = put(nes)
        les.append(({v: -x for v, x in sub.items()}, b[0] - sc))
        les.append((dict(sub), sc - b[1]))
    for r, c in done + work:
        g = 0
        for k in r.values(): g = gcd(g, k)
        if not r:
            if c: return False
            continue
        if c % g: return False
        les.append((dict(r), c))
        les.append(({v: -k for v, k in r.items()}, -c))
    eqs[:] = []
    if not prop(): return False
    # disequalities: split a few
    for i, (r, c) in enumerate(nes):
        if not r:
            if c == 0: return False
            continue
        if depth < 3 and len(nes) <= 6:
            rest = nes[:i] + nes[i + 1:]
            if feasible_rows([], les + [(r, c + 1)], rest, bounds, depth + 1): return True
            return feasible_rows([], les + [({v: -k for v, k in r.items()}, 1 - c)], rest, bounds, depth + 1)
    # Fourier-Motzkin
    cons = {}
    def put(r, c):
        r = {v: k for v, k in r.items() if k}
        if not r:
            return c <= 0
        g = 0
        for k in r.values(): g = gcd(g, k)
        if g > 1:
            r = {v: k // g for v, k in r.items()}
            c = -((-c) // g)
        mx = c
        for v, k in r.items():
            b = bounds[v]
            mx += k * (b[1] if k > 0 else b[0])
        if mx <= 0: return True
        key = frozenset(r.items())
        o = cons.get(key)
        if o is None or o < c: cons[key] = c
        return True
    for r, c in les:
        if not put(r, c): return False
    steps = 0
    while cons:
        steps += 1
        occ = {}
        for key, c in cons.items():
            for v, k in key:
                o = occ.setdefault(v, [0, 0])
                o[0 if k > 0 else 1] += 1
        best = None
        for v, (p, n) in occ.items():
            cost = (p + 1) * (n + 1) - p - n
            if best is None or cost < best[0]: best = (cost, v)
        v = best[1]
        pos = []; neg = []
        rest = {}
        for key, c in cons.items():
            d = dict(key)
            k = d.pop(v, 0)
            if k > 0: pos.append((d, c, k))
            elif k < 0: neg.append((d, c, -k))
            else: rest[key] = c
        b = bounds[v]
        pos.append(({}, -b[1], 1))
        neg.append(({}, b[0], 1))
        cons = rest
        if len(pos) * len(neg) > 600: return True
        for d1, c1, k1 in pos:
            for d2, c2, k2 in neg:
                if not d1 and not d2: continue
                r = {u: x * k2 for u, x in d1.items()}
                for u, x in d2.items():
                    t = r.get(u, 0) + x * k1
                    if t: r[u] = t
                    else: r.pop(u, None)
                if not put(r, c1 * k2 + c2 * k1): return False
        if len(cons) > Sys.LIMIT: return True
    return True

class Facts:
    __slots__ = ('les', 'eqs', 'nes', 'ors', 'preds', '_ix', '_memo')
    def __init__(self):
        self.les = {}
        self.eqs = ()
        self.nes = ()
        self.ors = ()
        self.preds = {}
        self._ix = None
        self._memo = {}
    def copy(self):
        f = Facts()
        f.les = dict(self.les)
        f.eqs = self.eqs
        f.nes = self.nes
        f.ors = self.ors
        f.preds = dict(self.preds)
        return f
    def conj(self):
        """all facts as formulas"""
        out = [('le', Lin(c, t)) for t, c in self.les.items()]
        out += [('eq', x) for x in self.eqs] + [('ne', x) for x in self.nes] + list(self.ors)
        out += [('p', k) if v else ('np', k) for k, v in self.preds.items()]
        return out
    def _add(self, f):
        """adds a conjunct in place; False if trivially contradictory"""
        if f is True: return True
        if f is False: return False
        k = f[0]
        self._ix = None
        self._memo = {}
        if k == 'le':
            x = f[1]
            o = self.les.get(x.t)
            if o is None or o < x.c: self.les[x.t] = x.c
        elif k == 'eq':
            if f[1] not in self.eqs: self.eqs = self.eqs + (f[1],)
        elif k == 'ne':
            if f[1] not in self.nes: self.nes = self.nes + (f[1],)
        elif k == 'and':
            for g in f[1]:
                if not self._add(g): return False
        elif k == 'or':
            self.ors = self.ors + (f,)
        elif k in ('p', 'np'):
            v = k == 'p'
            o = self.preds.get(f[1])
            if o is not None and o != v: return False
            self.preds[f[1]] = v
        return True
    def with_(self, *fs):
        """copy with additional facts, None if infeasible"""
        n = self.copy()
        for f in fs:
            if not n._add(f): return None
        lins = []
        for f in fs: f_lins(f, lins)
        if not n.feasible(lins): return None
        return n
    def _index(self):
        if self._ix is None:
            ix = {}
            allc = []
            for t, c in self.les.items(): allc.append(('le', Lin(c, t)))
            for x in self.eqs: allc.append(('eq', x))
            for x in self.nes: allc.append(('ne', x))
            for i, (k, x) in enumerate(allc):
                for a, v in x.t: ix.setdefault(a, []).append(i)
            self._ix = (allc, ix)
        return self._ix
    def feasible(self, focus, extra=()):
        """False if the facts connected with the given linear forms are contradictory"""
        allc, ix = self._index()
        use = {}
        seen = set()
        todo = []
        cs = list(extra)
        for x in focus:
            for a, v in x.t: todo.append(a)
        for k, x in extra:
            for a, v in x.t: todo.append(a)
        n = 0
        while todo:
            a = todo.pop(0)
            if a in seen: continue
            seen.add(a)
            for d in a.defs:
                cs.append(d)
                for b, v in d[1].t: todo.append(b)
            for i in ix.get(a, ()):
                if i not in use:
                    use[i] = True
                    cs.append(allc[i])
                    for b, v in allc[i][1].t: todo.append(b)
            n += 1
            if len(cs) > 160: break
        if not self._feas(cs): return False
        if self.ors:
            # disjunctions whose disjuncts are all refuted
            for o in self.ors:
                if not self._or_ok(o): return False
        return True
    def _or_ok(self, o, depth=0):
        return any(self._disj_ok(g) for g in o[1])
    def _disj_ok(self, g):
        if g is True: return True
        if g is False: return False
        if g[0] == 'and': return all(self._disj_ok(h) for h in g[1]) and self._conj_ok(g)
        if g[0] == 'or': return any(self._disj_ok(h) for h in g[1])
        if g[0] in ('p', 'np'):
            o = self.preds.get(g[1])
            return o is None or o == (g[0] == 'p')
        f = self.copy(); f.ors = ()
        f._add(g)
        return f.feasible(f_lins(g, []))
    def _conj_ok(self, g):
        f = self.copy(); f.ors = ()
        if not f._add(g): return False
        ors = f.ors; f.ors = ()
        return f.feasible(f_lins(g, []))
    def _feas(self, cs):
        cs = [c for c in cs if c is not True]
        if any(c is False for c in cs): return False
        if not cs: return True
        lins = [x for _, x in cs]
        plan = _collect(lins)
        eqs = []; les = []; nes = []
        for k, x in cs:
            r = _row(x, plan)
            (eqs if k == 'eq' else les if k == 'le' else nes).append((r, x.c))
        bounds = {}
        for a, p in plan.items():
            if p is None: bounds[a] = [a.lo, a.hi]
            else:
                for lo, n in p:
                    bounds[(a, lo, n)] = [0, (1 << n) - 1]
                tlo, thi = (-(1 << (a.w - 1)), (1 << (a.w - 1)) - 1) if a.signed else (0, (1 << a.w) - 1)
                e = expand(a, 1)
                row = {(a, lo, n): e[lo] for lo, n in p}
                if a.hi < thi: les.append((row, -a.hi))
                if a.lo > tlo: les.append(({v: -k for v, k in row.items()}, a.lo))
        return feasible_rows(eqs, les, nes, bounds)
    # -- queries
    def holds(self, f):
        """True if f is entailed (False means: not shown)"""
        if f is True: return True
        if f is False: return not self.feasible_all()
        m = self._memo.get(f)
        if m is not None: return m
        r = self._holds(f)
        self._memo[f] = r
        return r
    def feasible_all(self):
        lins = [Lin(c, t) for t, c in self.les.items()] + list(self.eqs) + list(self.nes)
        return self.feasible(lins)
    def _holds(self, f):
        k = f[0]
        if k == 'le':
            x = f[1]
            o = self.les.get(x.t)
            if o is not None and o >= x.c: return True
            return self._refuted(f_not(f))
        if k == 'eq':
            if f[1] in self.eqs: return True
            if f[1] in self.nes: return False
            n = f_not(f)
            if n[0] == 'eq' and n[1] in self.eqs: return False
            return self._refuted(('ne', f[1]))
        if k == 'ne':
            if f[1] in self.nes: return True
            if f[1] in self.eqs: return False
            return self._refuted(('eq', f[1]))
        if k == 'and': return all(self.holds(g) for g in f[1])
        if k == 'or':
            for g in f[1]:
                if self.holds(g): return True
            if f in self.ors: return True
            return self._refuted(f_not(f))
        if k == 'p': return self.preds.get(f[1]) is True or self._by_ors(f)
        if k == 'np': return self.preds.get(f[1]) is False or self._by_ors(f)
    def _by_ors(self, f):
        return bool(self.ors) and self._refuted(f_not(f))
    def _refuted(self, g):
        if g is True: return not self.feasible_all()
        if g is False: return True
        if g[0] == 'ne':
            x = g[1]
            return self._refuted(f_le(x + ONE)) and self._refuted(f_le(ONE - x))
        if g[0] == 'or':
            return all(self._refuted(h) for h in g[1])
        n = self.with_(g)
        if n is None: return True
        if n.ors: return not some_case(n)
        return False
    def decide(self, f):
        """True / False / None"""
        if f is True or f is False: return f
        if self.holds(f): return True
        if self.holds(f_not(f)): return False
        return None
    def bounds(self, x):
        """integer bounds of x under the facts (by bisection over entailment)"""
        lo, hi = rng(x)
        if not x.t: return lo, hi
        # quick single-constraint bounds
        o = self.les.get(x.t)
        if o is not None: hi = min(hi, x.c - o)
        m = scale(x, -1)
        o = self.les.get(m.t)
        if o is not None: lo = max(lo, -(m.c - o))
        return lo, hi
    def tight_max(self, x, cap):
        """smallest known upper bound if at most cap"""
        lo, hi = self.bounds(x)
        if hi <= cap: return hi
        if self.holds(f_le(x - K(cap))): return cap
        return None

def split_ors(facts, limit=64):
    """list of fact sets without disjunctions covering the given one"""
    out = []
    todo = [facts]
    while todo:
        f = todo.pop()
        if not f.ors:
            out.append(f)
            continue
        o = f.ors[0]
        g = f.copy()
        g.ors = f.ors[1:]
        for d in o[1]:
            n = g.with_(d)
            if n is not None: todo.append(n)
        if len(todo) + len(out) > limit: return out + todo
    return out

def some_case(facts, limit=256):
    """whether a fact set has a feasible choice of disjuncts (or too many choices to tell)"""
    budget = [limit]
    def go(f):
        if not f.ors: return True
        if budget[0] <= 0: return True
        budget[0] -= 1
        o = min(f.ors, key=lambda x: len(x[1]))
        g = f.copy()
        g.ors = tuple(x for x in f.ors if x is not o)
        for d in o[1]:
            n = g.with_(d)
            if n is not None and go(n): return True
        return False
    return go(facts)
