"""Loops whose number of rounds is not known: visits of loop heads, and the
library loop that reads a vector, summarised by one generic element."""
from lin import *
from absint import *
import os

FIRST = 20       # rounds followed one by one before a loop is generalised

def at_head(ip, st, fr, work, out):
    k = (fr.uid, fr.bb)
    c = st.visits.get(k)
    if c is None: c = (0, (), None, 0)
    n, snaps, gen, rounds = c
    n += 1
    if gen is not None:
        if gen.covers(ip, st, fr): return None
        # a state that the generalisation does not describe is followed on its own
        st.visits[k] = (1, (), None, rounds)
        return st
    if n > ip.MAX_UNROLL: raise Undecided('loop bound')
    if n >= FIRST - 9:
        snaps = snaps[-8:] + (Snap(st),)
        if n >= FIRST and n % 4 == 0 and rounds < 4 and snaps[0].facts is not snaps[-1].facts and (n >= 2 * FIRST or settled(snaps[-4:])):
            g = generalise(ip, st, fr, snaps[-3:], rounds)
            if g is not None:
                st.visits[k] = (n, (), g, rounds + 1)
                return st
    st.visits[k] = (n, snaps, None, rounds)
    return st

def settled(snaps):
    """each of the last rounds taught something"""
    return all(a.facts is not b.facts for a, b in zip(snaps, snaps[1:]))

class Snap:
    __slots__ = ('mem', 'facts', 'events')
    def __init__(self, st):
        self.mem = st.mem.copy()
        self.facts = st.facts
        self.events = st.events

class NoPattern(Exception): pass

def pattern(a, b, c):
    """function of j: the value j rounds after the third of three consecutive rounds"""
    if a is b and b is c: return lambda j: c
    if isinstance(c, Lin):
        if not (isinstance(a, Lin) and isinstance(b, Lin)): raise NoPattern('kind')
        d = c - b
        if b - a != d: raise NoPattern('step %s, %s' % (b - a, d))
        if d.t: raise NoPattern('step %s' % d)
        if d == ZERO: return lambda j: c
        return lambda j: c + scale(j, d.c)
    if isinstance(c, Agg):
        if not (isinstance(a, Agg) and isinstance(b, Agg) and a.v == b.v == c.v and len(a.f) == len(b.f) == len(c.f)): raise NoPattern('structure')
        fs = [pattern(x, y, z) for x, y, z in zip(a.f, b.f, c.f)]
        return lambda j: Agg(c.v, tuple(f(j) for f in fs))
    if isinstance(c, Ref):
        if not (isinstance(a, Ref) and isinstance(b, Ref) and a.root == b.root == c.root and len(a.path) == len(b.path) == len(c.path)): raise NoPattern('reference')
        fs = [pattern(x, y, z) for x, y, z in zip(a.path, b.path, c.path)]
        m = pattern(a.meta, b.meta, c.meta)
        return lambda j: Ref(c.root, tuple(f(j) for f in fs), m(j))
    if isinstance(c, Nat):
        if not (isinstance(a, Nat) and isinstance(b, Nat) and a.k == b.k == c.k and len(a.d) == len(b.d) == len(c.d)): raise NoPattern('native')
        fs = [pattern(x, y, z) for x, y, z in zip(a.d, b.d, c.d)]
        return lambda j: Nat(c.k, *[f(j) for f in fs])
    if isinstance(c, SeqV):
        if not (isinstance(a, SeqV) and isinstance(b, SeqV)): raise NoPattern('sequence')
        if a == b == c: return lambda j: c
        return seq_pattern(a.segs, b.segs, c.segs)
    if isinstance(c, tuple) and not is_formula(c):
        if not (isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) == len(c)): raise NoPattern('tuple')
        fs = [pattern(x, y, z) for x, y, z in zip(a, b, c)]
        return lambda j: tuple(f(j) for f in fs)
    if a == b and b == c: return lambda j: c
    raise NoPattern('value %r %r %r' % (a, b, c))

def seq_pattern(a, b, c):
    if len(a) == len(b) == len(c):
        i = 0
        while i < len(c) and a[i] == b[i] == c[i]: i += 1
        if i == len(c) - 1:
            x, y, z = a[i], b[i], c[i]
            if x[0] == y[0] == z[0] == 'S' and x[1] == y[1] == z[1]:
                o, n = pattern(x[3], y[3], z[3]), pattern(x[4], y[4], z[4])
                return lambda j: SeqV(c[:-1] + (('S', z[1], z[2], o(j), n(j)),))
            if x[0] == y[0] == z[0] == 'R' and x[1] == y[1] == z[1]:
                n = pattern(x[2], y[2], z[2])
                return lambda j: SeqV(c[:-1] + (('R', z[1], n(j)),))
            if x[0] == y[0] == z[0] == 'E':
                p, q, r = x[1], y[1], z[1]
                d = len(r) - len(q)
                if d == 1 and len(q) - len(p) == 1 and r[:-1] == q and q[:-1] == p and r[-1] == q[-1]:
                    return lambda j: SeqV(c + (('R', r[-1], j),))
        if i < len(c) and all(s[i:][1:] == c[i:][1:] for s in (a, b)):
            # the first part shrinks or moves
            x, y, z = a[i], b[i], c[i]
            if x[0] == y[0] == z[0] == 'S' and x[1] == y[1] == z[1]:
                o, n = pattern(x[3], y[3], z[3]), pattern(x[4], y[4], z[4])
                return lambda j: SeqV(c[:i] + (('S', z[1], z[2], o(j), n(j)),) + c[i + 1:])
    raise NoPattern('sequence')

def fact_patterns(f1, f2, f3):
    """facts learnt in each round: functions of j that hold j rounds later"""
    r1 = set(map(repr, f1.conj()))
    c2 = f2.conj()
    r2 = set(map(repr, c2))
    new2 = [f for f in c2 if repr(f) not in r1]
    new3 = [f for f in f3.conj() if repr(f) not in r2]
    out = []
    lost = 0
    for f in new3:
        if f[0] not in ('le', 'ne'):
            lost = 2
            continue
        for g in new2:
            if g[0] != f[0]: continue
            d = f[1] - g[1]
            if d.t: continue
            mk = f_le if f[0] == 'le' else f_ne0
            out.append(lambda j, f=f, d=d, mk=mk: mk(f[1] + scale(j, d.c)))
            break
        else: lost = lost or 1
    return out, lost

class Gen:
    def __init__(self, cells, inv, j, events, depth):
        self.cells = cells
        self.inv = inv
        self.j = j
        self.events = events
        self.depth = depth
    def shape(self, ip, st):
        """why the state is not one more round of the generalisation, None if it is"""
        j = self.j + ONE
        if st.events != self.events or len(st.frames) != self.depth: return 'events'
        for r, f in self.cells.items():
            if r not in st.mem or not agrees(ip, st.facts, f(j), st.mem[r]): return 'root %s: %r, %r' % (r, f(j), st.mem.get(r))
        return None
    def covers(self, ip, st, fr):
        why = self.shape(ip, st)
        j = self.j + ONE
        for f in self.inv:
            if why: break
            if not st.facts.holds(f(j)): why = 'fact %r' % (f(j),)
        if why and os.environ.get('LOOP_DEBUG'): print('not covered', fr.fn['name'][-60:], fr.bb, why[:600], [str(x) for x in st.facts.conj()][-8:])
        return why is None

class Probe:
    """collects the states in which one round of a loop ends"""
    def __init__(self): self.states = []
    def covers(self, ip, st, fr):
        self.states.append(st)
        return True

def lins_of(v, out, depth=0):
    if isinstance(v, Lin): out.append(v)
    elif isinstance(v, SeqV): 
        n = ZERO
        for s in v.segs:
            n = n + (K(len(s[1])) if s[0] == 'E' else s[-1])
            if n.t and s is not v.segs[-1]: out.append(n)
        out.append(n)
    elif depth > 6: pass
    elif isinstance(v, Agg) and len(v.f) <= 16:
        for x in v.f: lins_of(x, out, depth + 1)
    elif isinstance(v, Nat):
        for x in v.d: lins_of(x, out, depth + 1)
    elif isinstance(v, Ref):
        for x in v.path: lins_of(x, out, depth + 1)
        lins_of(v.meta, out, depth + 1)
    elif isinstance(v, tuple) and not is_formula(v) and len(v) <= 16:
        for x in v: lins_of(x, out, depth + 1)
    return out

def bounds_of(cells, facts, live):
    """candidates: a quantity that changes in each round stays on its side of one that does not"""
    moving, fixed = [], []
    for r, f in cells.items():
        p, q = lins_of(f(ZERO), []), lins_of(f(ONE), [])
        if len(p) != len(q): continue
        for x, y in zip(p, q):
            if x == y: fixed.append(x)
            else: moving.append((x, (y - x)))
    out = []
    seen = set()
    fixed = list(dict.fromkeys(fixed))
    if len(fixed) > 60: fixed = [x for x in fixed if x.t][:60]
    for x, d in dict.fromkeys(moving):
        if d.t: continue
        for c in fixed:
            z = x - c if d.c > 0 else c - x
            # x0 + d*j <= c
            if z in seen or not z.t and not -4096 <= z.c <= 0: continue
            seen.add(z)
            if facts.holds(f_le(z)): out.append(lambda j, z=z, d=abs(d.c): f_le(z + scale(j, d)))
    return out

def body_of(ip, f, head):
    """blocks on a cycle through the loop head"""
    bl = f['blocks']
    fwd = {head}
    todo = [head]
    while todo:
        for x in succs(bl[todo.pop()]['t']):
            if x not in fwd:
                fwd.add(x); todo.append(x)
    pred = {}
    for i in fwd:
        for x in succs(bl[i]['t']): pred.setdefault(x, []).append(i)
    back = {head}
    todo = [head]
    while todo:
        for x in pred.get(todo.pop(), ()):
            if x not in back:
                back.add(x); todo.append(x)
    return back & fwd

def one_round(ip, st, fr, k):
    """the states at the loop head one round later"""
    pr = Probe()
    s = st.copy()
    s.visits[k] = (1, (), pr, 4)
    top = s.frames[-1]
    top.tag = ('seen', top.bb)
    old = ip.within
    ip.within = (len(s.frames), body_of(ip, fr.fn, fr.bb))
    keep = dict(ip.stats)
    try: outs = ip.run([s])
    finally: ip.within = old
    ip.stats['paths'] = keep['paths']
    return pr.states

def agrees(ip, facts, a, b):
    if a is b: return True
    if isinstance(a, Lin) and isinstance(b, Lin): return a == b or facts.holds(f_eq(a, b))
    if type(a) is not type(b):
        if isinstance(a, Sym) or isinstance(b, Sym):
            x, y = ip.force(a), ip.force(b)
            return type(x) is type(y) and not isinstance(x, Sym) and agrees(ip, facts, x, y)
        return False
    if isinstance(a, Agg): return a.v == b.v and len(a.f) == len(b.f) and all(agrees(ip, facts, x, y) for x, y in zip(a.f, b.f))
    if isinstance(a, Ref): return a.root == b.root and agrees(ip, facts, a.path, b.path) and agrees(ip, facts, a.meta, b.meta)
    if isinstance(a, Nat): return a.k == b.k and agrees(ip, facts, a.d, b.d)
    if isinstance(a, SeqV):
        x = [s for s in a.segs if not (s[0] in 'SR' and facts.holds(f_eq0(s[-1])))]
        y = [s for s in b.segs if not (s[0] in 'SR' and facts.holds(f_eq0(s[-1])))]
        return len(x) == len(y) and all(p[0] == q[0] and agrees(ip, facts, p[1:], q[1:]) for p, q in zip(x, y))
    if isinstance(a, tuple) and not is_formula(a):
        return isinstance(b, tuple) and len(a) == len(b) and all(agrees(ip, facts, x, y) for x, y in zip(a, b))
    return a == b

def generalise(ip, st, fr, snaps, rounds):
    """replaces the state by the set of all states some number of rounds later"""
    a, b, c = snaps
    if not (a.events == b.events == c.events): return None
    live = ip.p.info(fr.fn).live(fr.bb)
    dead = [fr.base + i for i in range(len(fr.fn['locals'])) if i not in live]
    cells = {}
    try:
        for r, v in c.mem.items():
            if r not in a.mem or r not in b.mem: continue
            try: cells[r] = pattern(a.mem[r], b.mem[r], v)
            except NoPattern:
                if r not in dead: raise
    except NoPattern as e:
        if os.environ.get('LOOP_DEBUG'): print('no pattern', fr.fn['name'][-80:], fr.bb, r, e)
        return None
    if all(f(ONE) == c.mem[r] for r, f in cells.items()): return None
    j = sym(fresh_name('rounds'), 64)
    learnt, lost = fact_patterns(a.facts, b.facts, c.facts)
    # nothing but facts about single rounds: these must be kept
    if not learnt and lost == 2: return None
    inv = learnt + bounds_of(cells, c.facts, live)
    if os.environ.get('LOOP_DEBUG'): print('CAND', [[str(x) for x in f.conj()][-4:] for f in (a.facts, b.facts, c.facts)], [str(f(j)) for f in inv])
    for r in dead:
        if r not in cells: st.mem.pop(r, None)
    k = (fr.uid, fr.bb)
    base = st
    while True:
        g = base.copy()
        for r, f in cells.items(): g.mem[r] = f(j)
        for f in inv:
            if not g.assume(f(j)): return None
        gen = Gen(cells, inv, j, st.events, len(st.frames))
        keep = inv
        for n in one_round(ip, g, g.frames[-1], k):
            if os.environ.get('LOOP_DEBUG'): print('round', j, gen.shape(ip, n), [str(f(j)) for f in keep if not n.facts.holds(f(j + ONE))], [str(x) for x in n.facts.conj()][-6:])
            if gen.shape(ip, n) is None: keep = [f for f in keep if n.facts.holds(f(j + ONE))]
        if len(keep) == len(inv): break
        inv = keep
    st.mem = g.mem
    st.facts = g.facts
    if lost: st.imprecise = 'facts of single rounds are forgotten'
    ip.stats['generalised'] = ip.stats.get('generalised', 0) + 1
    return gen

def callees(ip, f):
    out = []
    for b in f['blocks']:
        t = b['t']
        if t[0] == 'call' and t[1][0] == 'k':
            x = ip.p.T[t[1][1]].get('fn')
            if isinstance(x, list) and x[0] == 'fn': out.append(ip.p.F[x[1]])
    return out

def element_reader(ip, f):
    """(read function of the element type, its announced minimum)"""
    rd = mn = prim = None
    for g in callees(ip, f):
        n = g['def'].rsplit('::', 1)[-1]
        if n == 'read_value':
            for h in callees(ip, g):
                if h['def'].rsplit('::', 1)[-1] == 'read_from': rd = h
        elif n == 'read_from': rd = g
        elif n == 'minimum_bytes_needed': mn = g
        elif n == 'speedy_is_primitive': prim = g
    if rd is None or mn is None: raise Undecided('element of a vector')
    return rd, mn, prim

class Element:
    """the analysis of reading one element from a window of bytes"""
    def __init__(self, ip, f, rty, rv, window, i, j):
        self.f = f; self.rty = rty; self.rv = rv; self.window = window; self.i = i; self.j = j
        self.memo = {}
        self.step = None
        self.n = None
    def at(self, ip, pos, facts=None):
        """outcomes [(kind, value, added formulas, end position)] of reading at the given position"""
        st = State()
        if facts is not None: st.facts = facts
        base = set(map(repr, st.facts.conj()))
        root = st.alloc(self.window)
        rv = self.rv
        fs = list(rv.f)
        fs[self.i] = Ref(root, (('i', pos),))
        fs[self.j] = Ref(root, (('i', ip.seq_len(self.window)),))
        r = st.alloc(Agg(rv.v, tuple(fs)))
        sk = ip.stats
        out = []
        for o in ip.run_fn(st, self.f, (Ref(r),)):
            add = [g for g in o.st.facts.conj() if repr(g) not in base]
            end = None
            kind = o.kind
            v = o.value
            if kind == 'ret':
                vi = ip.variant_of(o.st, ip.force(v))
                kind = 'ok' if vi == 0 else 'err'
                v = ip.force(ip.step_in(o.st, ip.force(v), ('v', vi, 0)))
                p = ip.get(o.st, r, (self.i,))
                end = ip.as_ref(p).path[-1][1]
            out.append((kind, v, add, end, o))
        return out
    def elem(self, ip, st, idx):
        """the value of the element with this index"""
        pos = scale(idx, self.step)
        c = self.memo.get(idx)
        if c is None:
            f = Facts()
            f = f.with_(f_leq(ZERO, pos), f_leq(pos + K(self.step), ip.seq_len(self.window)))
            if f is None: raise Undecided('element outside of the input')
            c = self.memo[idx] = [x for x in self.at(ip, pos, f) if x[0] == 'ok']
        good = []
        for x in c:
            n = st.facts.with_(*x[2])
            if n is not None: good.append((x, n))
        if not good: raise Undecided('no such element')
        if len(good) > 1: raise Fork(tuple(f_and(*x[2]) for x, n in good))
        x, n = good[0]
        st.facts = n
        return x[1]

def read_vec(ip, st, c):
    import models
    fn, mn, prim = element_reader(ip, c.f)
    if prim is not None:
        o = ip.run_fn(st, prim, ())
        if len(o) != 1 or o[0].kind != 'ret': raise Undecided('vector of primitive values')
    o = ip.run_fn(st, mn, ())
    if len(o) != 1 or o[0].kind != 'ret' or o[0].value.t: raise Undecided('minimum size of an element')
    least = o[0].value.c
    n = c.args[1]
    parts = models.reader_parts(ip, st, c)
    r, i, p, a, e, ctx = parts
    need = scale(n, least)
    if not st.decide(f_leq(need, K((1 << 64) - 1))) or not st.decide(f_leq(a + need, e)):
        return models.err(models.speedy_err(ip, 'UnexpectedEndOfInput'))
    rty = models.deref_ty(ip, c.tys[0])
    rv = ip.get(st, r.root, r.path)
    j = models.struct_idx(ip, rty, 'end')
    w = models.slice_vals(ip, st, Ref(p.root, p.path[:-1], (a, e - a)))
    vty = ip.p.T[c.f['locals'][0]]['variants'][0]['fields'][0][1]
    ety = ip.elem_ty(vty)
    models.alloc_event(ip, st, n, ety)
    if ip.p.int_info(ety) == (8, False):
        v = models.slice_vals(ip, st, Ref(p.root, p.path[:-1], (a, n)))
        models.reader_take(ip, st, parts, n)
        return models.ok(v)
    if n == ZERO or st.facts.holds(f_eq0(n)): return models.ok(SeqV(()))
    key = (fn['id'], rv.v, tuple(x for k, x in enumerate(rv.f) if k not in (i, j)), w)
    sid = ('rd', ip.rd_ids.setdefault(key, len(ip.rd_ids)))
    el = ip.rd.get(sid)
    if el is None:
        el = ip.rd[sid] = Element(ip, fn, rty, rv, w, i, j)
        first = el.at(ip, ZERO)
        steps = set(x[3] for x in first if x[0] == 'ok')
        if len(steps) != 1 or next(iter(steps)).t or not first: raise Undecided('elements of different sizes')
        el.step = next(iter(steps)).c
    k = A(atom(('elem no', sid, n), 64))
    if st.decide(('p', ('all elements readable', sid, n))):
        if not st.decide(f_leq(a + scale(n, el.step), e)): raise Dead()
        ip.put(st, r.root, r.path + (i,), Ref(p.root, p.path[:-1] + (('i', a + scale(n, el.step)),)))
        return models.ok(SeqV((('S', sid, ety, ZERO, n),)))
    pos = scale(k, el.step)
    if not st.assume(f_lt(k, n)): raise Dead()
    # the first element that cannot be read; those before it are complete
    if not st.assume(f_leq(pos, e - a)): raise Dead()
    outs = [x for x in el.at(ip, pos, st.facts) if x[0] != 'ok']
    for x in outs:
        if x[0] == 'undecided': raise Undecided('element: %s' % x[4].msg)
    good = []
    for x in outs:
        m = st.facts.with_(*x[2])
        if m is not None: good.append((x, m))
    if not good: raise Dead()
    if len(good) > 1: raise Fork(tuple(f_and(*x[2]) for x, m in good))
    x, m = good[0]
    st.facts = m
    if x[0] == 'panic': raise PanicEx(x[4].msg)
    if x[0] != 'err': raise Undecided('element')
    ip.put(st, r.root, r.path + (i,), Ref(p.root, p.path[:-1] + (('i', a + x[3]),)))
    return models.err(x[1])

def retain(ip, st, c, fty):
    import models
    def snap(ip, st, args, fr, t):
        v = args[0]
        s = ip.to_seq(models.rd(ip, st, v))
        root = st.alloc(s)
        models.wr(ip, st, v, SeqV(()))
        return models.iter_val(root, (), ZERO, ip.seq_len(s))
    def keep(ip, st, args, fr, t):
        v, x = args
        s = ip.to_seq(models.rd(ip, st, v))
        models.wr(ip, st, v, ip.seq_push(s, ip.get(st, x.root, x.path)))
        return UNIT
    def make():
        s = models.Synth('retain', 2)
        it = s.local(); itr = s.local(); opt = s.local(); var = s.local(); x = s.local(); r = s.local(); b = s.local(); u = s.local()
        cp = models._cp
        s.block([], ['call', ['nat', snap], [cp(1)], [it], 1])
        s.block([['=', [itr], ['ref', 'mut', [it]]]], ['call', ['nat', models.nat_next], [cp(itr)], [opt], 2])
        s.block([['=', [var], ['variant', [opt]]]], ['switch', cp(var), [['0', 3]], 4])
        s.block([['=', [0], ['agg', 'tuple', None, 0, []]]], ['ret'])
        s.block([['=', [x], ['use', ['cp', [opt, ['d', 1], ['f', 0, None]]]]], ['=', [r], ['ref', 'mut', [2]]]],
                ['call', ['nat', models.nat_call(fty)], [cp(r), cp(x)], [b], 5])
        s.block([], ['switch', cp(b), [['0', 1]], 6])
        s.block([], ['call', ['nat', keep], [cp(1), cp(x)], [u], 1])
        return s.fn(ip)
    return models.run_synth(ip, st, c, models.synth(ip, ('retain', fty), make), c.args[:2])
