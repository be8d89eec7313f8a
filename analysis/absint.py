"""Abstract interpreter for the compiled program (MIR as dumped by the driver).

Trace-partitioned forward analysis: every abstract state is a memory of symbolic
values plus a conjunction of linear facts. Nothing of the program is executed.
"""
import json, os, re, sys
from lin import *

class Agg:
    __slots__ = ('v', 'f', '_h')
    def __init__(self, v, f):
        self.v = v
        self.f = f
        self._h = None
    def __eq__(self, o):
        return self is o or (isinstance(o, Agg) and self.v == o.v and self.f == o.f)
    def __hash__(self):
        if self._h is None: self._h = hash((self.v, self.f))
        return self._h
    def __repr__(self): return '%s{%s}' % (self.v if self.v else '', ', '.join(map(repr, self.f)))

UNIT = Agg(0, ())

class Ref:
    __slots__ = ('root', 'path', 'meta', 'off')
    def __init__(self, root, path=(), meta=None):
        self.root = root
        self.path = path
        self.meta = meta
    def __eq__(self, o):
        return self is o or (isinstance(o, Ref) and self.root == o.root and self.path == o.path and self.meta == o.meta)
    def __hash__(self): return hash((self.root, self.path))
    def __repr__(self): return '&%s%s%s' % (self.root, ''.join('.%s' % (s,) for s in self.path), self.meta if self.meta else '')

class Sym:
    """An arbitrary value of a type, expanded when looked at"""
    __slots__ = ('ty', 'key')
    def __init__(self, ty, key):
        self.ty = ty
        self.key = key
    def __eq__(self, o):
        return self is o or (isinstance(o, Sym) and self.ty == o.ty and self.key == o.key)
    def __hash__(self): return hash((self.ty, self.key))
    def __repr__(self): return 'any(%s)' % show_key(self.key)

class SeqV:
    """Contents of a Vec, BytesMut, ...: segments ('E', values) | ('S', id, elem type, offset, length) | ('F', id, ty, off, len, predicate)"""
    __slots__ = ('segs',)
    def __init__(self, segs): self.segs = segs
    def __eq__(self, o): return self is o or (isinstance(o, SeqV) and self.segs == o.segs)
    def __hash__(self): return hash(self.segs)
    def __repr__(self): return '[%s]' % '; '.join(show_seg(s) for s in self.segs)

def show_seg(s):
    if s[0] == 'E': return ', '.join(map(repr, s[1]))
    if s[0] == 'S': return '%s[%s..+%s]' % (show_key(s[1]), s[3], s[4])
    return str(s)

class Nat:
    """Natively modelled value"""
    __slots__ = ('k', 'd')
    def __init__(self, k, *d):
        self.k = k
        self.d = d
    def __eq__(self, o): return self is o or (isinstance(o, Nat) and self.k == o.k and self.d == o.d)
    def __hash__(self): return hash((self.k, self.d))
    def __repr__(self): return '%s(%s)' % (self.k, ', '.join(map(repr, self.d)))

class Opaque:
    __slots__ = ('ty', 'why')
    def __init__(self, ty, why):
        self.ty = ty
        self.why = why
    def __eq__(self, o): return self is o or (isinstance(o, Opaque) and self.why == o.why)
    def __hash__(self): return hash(self.why)
    def __repr__(self): return '<%s>' % (self.why,)

class _Undef:
    def __repr__(self): return 'undef'
UNDEF = _Undef()

class Fork(Exception):
    def __init__(self, forms, note=None):
        self.forms = forms
        self.note = note

class Undecided(Exception):
    """The analysis cannot follow the program here"""

class Dead(Exception):
    """the path is contradictory"""

class CutEx(Exception):
    """the rest of the path is that of a path analysed on its own"""

class PanicEx(Exception):
    pass

def is_formula(v):
    return v is True or v is False or (isinstance(v, tuple) and v and v[0] in ('le', 'eq', 'ne', 'and', 'or', 'p', 'np'))

# ---------------------------------------------------------------- program

DEPS = ('speedy', 'bytes', 'bit_set', 'bit_vec', 'num_traits', 'tokio_util', 'log')

import functools
@functools.lru_cache(maxsize=None)
def norm(n):
    for d in DEPS:
        n = n.replace('rtps_rs::%s::' % d, d + '::')
    return n

class Prog:
    def __init__(self, d):
        self.d = d
        self.T = {t['id']: t for t in d['types']}
        self.F = {f['id']: f for f in d['fns']}
        self.files = d['files']
        self.next_of = dict(d.get('next', ()))
        self.by_name = {}
        self.by_def = {}
        self.closure_body = {}
        for f in d['fns']:
            f['name'] = norm(f['name'])
            f['def'] = norm(f['def'])
            self.by_name.setdefault(f['name'], f)
            self.by_def.setdefault(f['def'], []).append(f)
            if 'blocks' in f and '{closure' in f['def'].rsplit('::', 1)[-1]:
                t = self.T[f['locals'][1]]
                if t['k'] == 'ref': t = self.T[t['of']]
                if t['k'] == 'closure': self.closure_body[t['id']] = f['id']
        self.by_tstr = {}
        for t in d['types']: self.by_tstr.setdefault(t['s'], t['id'])
        self.u8 = self.find_ty('u8'); self.usize = self.find_ty('usize'); self.bool = self.find_ty('bool')
        self.cmem = {}
        self.ccache = {}
        self._info = {}
        self.roots = [r[0] for r in d['roots']]
    def find_ty(self, s):
        return self.by_tstr.get(s)
    def span(self, sp):
        if not sp: return '?'
        return '%s:%s' % (self.files[sp[0]], sp[1])
    def local(self, f):
        return 'span' in f and self.files[f['span'][0]].startswith('src/')
    def int_info(self, tid):
        t = self.T[tid]
        k = t['k']
        if k == 'int': return t['bits'], t['signed']
        if k == 'char': return 32, False
        if k == 'bool': return 1, False
        if k in ('ptr', 'ref', 'fnptr'): return 64, False
        return None
    def adt(self, tid):
        return norm(self.T[tid].get('def', ''))
    def size(self, tid):
        return self.T[tid].get('size')
    def variant_index(self, tid, discr):
        for i, v in enumerate(self.T[tid]['variants']):
            if int(v['discr']) == discr: return i
    def discr(self, tid, vi):
        """discriminant value as an integer of the discriminant type"""
        t = self.T[tid]
        n = int(t['variants'][vi]['discr'])
        if 'dty' in t and t['dty'] is not None:
            w, s = self.int_info(t['dty'])
            n &= (1 << w) - 1
            if s and n >> (w - 1): n -= 1 << w
        return n
    # -- constants
    def decode(self, ty, v):
        k = v[0]
        t = self.T[ty] if ty is not None else None
        if k == 'i':
            n = int(v[1])
            if t is not None and t['k'] == 'bool': return n != 0
            if t is not None and t['k'] == 'int':
                w, s = t['bits'], t['signed']
                n &= (1 << w) - 1
                if s and n >> (w - 1): n -= 1 << w
            return K(n)
        if k == 'f':
            import struct
            return Nat('flt', ('c', struct.unpack('<d' if v[2] == 8 else '<f', int(v[1]).to_bytes(v[2], 'little'))[0]))
        if k == 'agg':
            if t is not None and t['k'] == 'tuple':
                fts = t['of']
            elif t is not None and 'variants' in t:
                fts = [x[1] for x in t['variants'][v[1]]['fields']]
            elif t is not None and t['k'] == 'array':
                fts = [t['of']] * len(v[2])
            else:
                fts = [None] * len(v[2])
            return Agg(v[1], tuple(self.decode(ft, x) for ft, x in zip(fts, v[2])))
        if k == 'arr':
            return Agg(0, tuple(self.decode(t['of'] if t else None, x) for x in v[1]))
        if k == 'str':
            return Nat('str', v[1])
        if k == 'ref':
            key = json.dumps(v)
            key = (ty, key)
            r = self.ccache.get(key)
            if r is None:
                r = -1 - len(self.cmem)
                to = t['of'] if t and t['k'] in ('ref', 'ptr') else None
                ot = self.T[to] if to is not None else None
                meta = None
                if v[1][0] == 'arr' and ot is not None and ot['k'] == 'slice':
                    vals = tuple(self.decode(ot['of'], x) for x in v[1][1])
                    self.cmem[r] = Agg(0, vals)
                    meta = (ZERO, K(len(vals)))
                else:
                    self.cmem[r] = self.decode(to, v[1])
                r = self.ccache[key] = Ref(r, (), meta)
            return r
        if k == 'ptr': return K(int(v[1]))
        if k == 'zst': return UNIT
        if k == 'undef': return UNDEF
        if k == 'fn': return Nat('fn', v[1])
        return Opaque(ty, 'const %s' % (v,))
    # -- control flow facts
    def info(self, f):
        i = self._info.get(id(f))
        if i is None:
            i = self._info[id(f)] = FnInfo(f)
        return i

def succs(t):
    k = t[0]
    if k == 'goto': return [t[1]]
    if k == 'switch': return [x[1] for x in t[2]] + [t[3]]
    if k == 'call': return [t[4]] if t[4] is not None else []
    if k == 'drop': return [t[2]]
    if k == 'assert': return [t[4]]
    return []

def _place_uses(p, use):
    use.add(p[0])
    for e in p[1:]:
        if e != '*' and e[0] == 'i': use.add(e[1])

def _op_uses(o, use):
    if o and o[0] in ('cp', 'mv'): _place_uses(o[1], use)

def _rv_uses(r, use):
    k = r[0]
    if k in ('addr', 'ref'): _place_uses(r[-1], use)
    elif k in ('discr', 'len', 'variant'): _place_uses(r[1], use)
    elif k == 'agg':
        for o in r[4]: _op_uses(o, use)
    else:
        for o in r[1:]:
            if isinstance(o, list): _op_uses(o, use)

class FnInfo:
    def __init__(self, f):
        self.f = f
        bl = f['blocks']
        self.heads = set()
        color = {}
        stack = [(0, iter(succs(bl[0]['t'])))]
        color[0] = 1
        while stack:
            n, it = stack[-1]
            for s in it:
                if color.get(s) == 1: self.heads.add(s)
                elif s not in color:
                    color[s] = 1
                    stack.append((s, iter(succs(bl[s]['t']))))
                    break
            else:
                color[n] = 2
                stack.pop()
        self._live = None
        self.ptypes = {}
    def live(self, bb):
        if self._live is None: self._compute()
        return self._live[bb]
    def _compute(self):
        bl = self.f['blocks']
        gen = []; kill = []
        for b in bl:
            g = set(); d = set()
            def use(u):
                for x in u:
                    if x not in d: g.add(x)
            for s in b['s']:
                u = set()
                if s[0] == '=':
                    _rv_uses(s[2], u)
                    p = s[1]
                    if len(p) > 1: _place_uses(p, u)
                    use(u)
                    if len(p) == 1: d.add(p[0])
                else:
                    for x in s[1:]:
                        if isinstance(x, list) and x and x[0] in ('cp', 'mv'): _op_uses(x, u)
                        elif s[0] == 'sd' and isinstance(x, list) and x and isinstance(x[0], int): _place_uses(x, u)
                    use(u)
            t = b['t']
            u = set()
            if t[0] == 'call':
                _op_uses(t[1], u)
                for a in t[2]: _op_uses(a, u)
                p = t[3]
                if len(p) > 1: _place_uses(p, u)
                use(u)
                if len(p) == 1: d.add(p[0])
            else:
                if t[0] == 'switch': _op_uses(t[1], u)
                if t[0] == 'assert': _op_uses(t[1], u)
                if t[0] == 'ret': u.add(0)
                use(u)
            gen.append(g); kill.append(d)
        live = [set() for _ in bl]
        ch = True
        while ch:
            ch = False
            for i in range(len(bl) - 1, -1, -1):
                o = set()
                for s in succs(bl[i]['t']): o |= live[s]
                n = gen[i] | (o - kill[i])
                if n != live[i]:
                    live[i] = n; ch = True
        self._live = live

# ---------------------------------------------------------------- state

class Frame:
    __slots__ = ('fn', 'bb', 'si', 'base', 'dest', 'ret', 'uid', 'tag')
    def __init__(self, fn, base, dest, ret, uid):
        self.fn = fn
        self.bb = 0
        self.si = 0
        self.base = base
        self.dest = dest
        self.ret = ret
        self.uid = uid
        self.tag = None
    def copy(self):
        f = Frame(self.fn, self.base, self.dest, self.ret, self.uid)
        f.bb = self.bb
        f.si = self.si
        f.tag = self.tag
        return f

class State:
    __slots__ = ('mem', 'frames', 'facts', 'nroot', 'events', 'imprecise', 'visits', 'trail', 'forks', 'ghost', 'widened')
    def __init__(self):
        self.mem = {}
        self.frames = []
        self.facts = Facts()
        self.nroot = 1
        self.events = ()
        self.imprecise = None
        self.visits = {}
        self.trail = None
        self.forks = 0
        self.ghost = {}
        self.widened = ()
    def copy(self):
        s = State()
        s.mem = self.mem.copy()
        s.frames = [f.copy() for f in self.frames]
        s.facts = self.facts
        s.nroot = self.nroot
        s.events = self.events
        s.imprecise = self.imprecise
        s.visits = self.visits.copy()
        s.trail = self.trail
        s.forks = self.forks
        s.ghost = self.ghost
        s.widened = self.widened
        return s
    def assume(self, *fs):
        """adds facts; False if the state becomes infeasible"""
        n = self.facts.with_(*fs)
        if n is None: return False
        self.facts = n
        return True
    def decide(self, f):
        r = self.facts.decide(f)
        if r is None: raise Fork((f, f_not(f)))
        return r
    def alloc(self, v):
        r = self.nroot
        self.nroot += 1
        self.mem[r] = v
        return r
    def path_spans(self):
        out = []
        t = self.trail
        while t is not None:
            out.append(t[0])
            t = t[1]
        out.reverse()
        return out

class Outcome:
    """kind: ret | panic | undecided | cut"""
    def __init__(self, kind, st, value=None, msg=None):
        self.kind = kind
        self.st = st
        self.value = value
        self.msg = msg
    def __repr__(self): return '%s %r %s' % (self.kind, self.value, self.msg or '')

# ---------------------------------------------------------------- interpreter

class Interp:
    MAX_UNROLL = 320
    debug = bool(os.environ.get('ABSINT_DEBUG'))
    def __init__(self, prog):
        import models
        self.p = prog
        self.models = models
        self.native = models.table(prog)
        self.pattern = models.patterns
        self.ncache = {}
        self.budget = int(os.environ.get("ABSINT_BUDGET", "3000000"))
        self.max_out = 20000
        self.cut = None          # optional: f(interp, st, frame) -> True to stop a path at a loop head
        self.on_call = None
        self.rd = {}
        self.within = None       # (depth, blocks): only the body of one loop is followed
        self.rd_ids = {}
        self.skolem = {}         # sequence id -> list of distinguished index forms
        self.stats = {'steps': 0, 'paths': 0, 'fns': set(), 'forks': 0, 'widened': 0}
        self.widen_state = {}

    # -- symbolic values
    def field_ty(self, ty, variant, i):
        t = self.p.T[ty]
        k = t['k']
        if k == 'tuple': return t['of'][i]
        if k in ('struct', 'enum', 'union'): return t['variants'][variant]['fields'][i][1]
        if k == 'array': return t['of']
        raise Undecided('field of %s' % t['s'])
    def sym_child(self, v, variant, i):
        t = self.p.T[v.ty]
        if t['k'] == 'enum':
            return Sym(self.field_ty(v.ty, variant, i), v.key + (('v%d' % variant), i))
        return Sym(self.field_ty(v.ty, variant, i), v.key + (i,))
    def force(self, v):
        if not isinstance(v, Sym): return v
        t = self.p.T[v.ty]
        k = t['k']
        if k == 'int': return A(atom(v.key, t['bits'], t['signed']))
        if k == 'char': return A(atom(v.key, 32, False, 0, 0x10ffff))
        if k == 'bool': return ('eq', A(atom(v.key, 1)) - ONE)
        if k == 'float': return Nat('flt', ('s', v.key))
        if k == 'array' and t['n'] is not None and t['n'] <= 64:
            return Agg(0, tuple(Sym(t['of'], v.key + (i,)) for i in range(t['n'])))
        d = self.p.adt(v.ty)
        h = self.models.SYM_ADT.get(d)
        if h: return h(self, v)
        if k == 'tuple': return Agg(0, tuple(self.sym_child(v, 0, i) for i in range(len(t['of']))))
        return v
    def elem_ty(self, tid):
        t = self.p.T[tid]
        if t['k'] in ('array', 'slice'): return t['of']
        d = self.p.adt(tid)
        if d in ('std::vec::Vec',): return t['args'][0]
        if d == 'bytes::BytesMut': return self.p.u8
        return None
    def enum_var(self, v):
        """variant index atom of a symbolic enum"""
        t = self.p.T[v.ty]
        n = len(t['variants'])
        if n == 1: return ZERO
        return A(atom(v.key + ('#',), 16, False, 0, n - 1))

    # -- sequences
    def seg_len(self, s):
        if s[0] == 'E': return K(len(s[1]))
        if s[0] == 'S': return s[4]
        if s[0] == 'R': return s[2]
        raise Undecided('length of a filtered sequence')
    def seq_len(self, v):
        n = ZERO
        for s in v.segs: n = n + self.seg_len(s)
        return n
    def to_seq(self, v):
        v = self.force(v)
        if isinstance(v, SeqV): return v
        if isinstance(v, Agg): return SeqV((('E', v.f),)) if v.f else SeqV(())
        raise Undecided('not a sequence: %r' % (v,))
    def sym_elem(self, st, sid, ty, idx):
        """element idx of the symbolic sequence sid; distinguished positions are kept apart"""
        if isinstance(sid, tuple) and sid and sid[0] == 'rd': return self.force(self.rd[sid].elem(self, st, idx))
        for d in self.skolem.get(sid, ()):
            if idx == d: break
            if st.decide(f_eq(idx, d)):
                idx = d
                break
        return self.force(Sym(ty, ('e', sid, idx)))
    def seq_get(self, st, v, idx):
        base = ZERO
        for s in v.segs:
            n = self.seg_len(s)
            end = base + n
            if s is v.segs[-1] or st.decide(f_lt(idx, end)):
                i = idx - base
                if s[0] == 'E':
                    c = self.concrete(st, i, len(s[1]))
                    if c < 0 or c >= len(s[1]): raise Undecided('index %s outside of the sequence' % i)
                    return s[1][c]
                if s[0] == 'R': return s[1]
                at = s[3] + i
                if at.t and len(at.t) == 1:
                    # a position that the facts fix
                    a, k = at.t[0]
                    for q in st.facts.conj():
                        if q[0] == 'eq' and len(q[1].t) == 1 and q[1].t[0][0] is a and isinstance(k, int) and isinstance(q[1].t[0][1], int) and q[1].c % q[1].t[0][1] == 0:
                            at = K(at.c - k * (q[1].c // q[1].t[0][1]))
                            break
                return self.sym_elem(st, s[1], s[2], at)
            base = end
        raise Undecided('index outside of an empty sequence')
    def concrete(self, st, x, limit=64):
        """concrete value of x, case split over its possible values if there are few"""
        if not x.t: return x.c
        f = st.facts
        lo, hi = f.bounds(x)
        if hi - lo > limit:
            if f.holds(f_le(x - K(limit))): hi = limit
            if f.holds(f_le(-x)): lo = max(lo, 0)
        if hi == lo: return lo
        if len(x.t) == 1 and isinstance(x.t[0][1], int):
            a, k = x.t[0]
            for q in f.conj():
                if q[0] == 'eq' and len(q[1].t) == 1 and q[1].t[0][0] is a and isinstance(q[1].t[0][1], int) and q[1].c % q[1].t[0][1] == 0:
                    return x.c - k * (q[1].c // q[1].t[0][1])
        if hi - lo > limit: raise Undecided('index %s is not bounded' % x)
        # a value that is fixed by the facts needs no case split
        m = f.with_(('ne', x - K(lo)) if False else f_not(f_eq(x, K(lo))))
        if m is None: return lo
        for i in range(lo + 1, hi + 1):
            if f.holds(f_eq(x, K(i))): return i
        raise Fork(tuple(f_eq(x, K(i)) for i in range(lo, hi + 1)))
    def seq_split(self, st, v, at):
        """(first at elements, rest)"""
        left = []
        base = ZERO
        segs = list(v.segs)
        while segs:
            if st.facts.holds(f_eq(at, base)): break
            s = segs.pop(0)
            n = self.seg_len(s)
            if st.decide(f_leq(base + n, at)):
                left.append(s)
                base = base + n
                continue
            k = at - base
            if s[0] == 'E':
                c = self.concrete(st, k, len(s[1]))
                if c: left.append(('E', s[1][:c]))
                segs.insert(0, ('E', s[1][c:]))
            elif s[0] == 'R':
                left.append(('R', s[1], k)); segs.insert(0, ('R', s[1], n - k))
            else:
                left.append(('S', s[1], s[2], s[3], k))
                segs.insert(0, ('S', s[1], s[2], s[3] + k, n - k))
            break
        return SeqV(tuple(left)), SeqV(tuple(segs))
    def seq_norm(self, st, segs):
        out = []
        for s in segs:
            if s[0] == 'E':
                if not s[1]: continue
                # elements that are consecutive elements of a symbolic sequence become part of it
                for e in s[1]:
                    self._push_norm(out, e)
                continue
            if s[0] in ('S', 'R') and s[-1] == ZERO: continue
            if s[0] == 'S' and out and out[-1][0] == 'S' and out[-1][1] == s[1] and out[-1][3] + out[-1][4] == s[3]:
                o = out[-1]
                out[-1] = ('S', o[1], o[2], o[3], o[4] + s[4])
                continue
            out.append(s)
        return SeqV(tuple(out))
    def elem_key(self, e):
        if isinstance(e, Lin):
            if e.c == 0 and len(e.t) == 1 and e.t[0][1] == 1 and e.t[0][0].key[0] == 'e' and len(e.t[0][0].key) == 3:
                return e.t[0][0].key
        elif isinstance(e, Sym) and e.key[0] == 'e' and len(e.key) == 3: return e.key
        return None
    def _push_norm(self, out, e):
        if out and out[-1][0] == 'R' and out[-1][1] == e:
            out[-1] = ('R', e, out[-1][2] + ONE)
            return
        k = self.elem_key(e)
        if k is not None:
            if out and out[-1][0] == 'S' and out[-1][1] == k[1] and out[-1][3] + out[-1][4] == k[2]:
                o = out[-1]
                out[-1] = ('S', o[1], o[2], o[3], o[4] + ONE)
                return
            if out and out[-1][0] == 'E':
                pass
            ty = e.ty if isinstance(e, Sym) else self.seq_ty.get(k[1])
            if ty is not None:
                out.append(('S', k[1], ty, k[2], ONE))
                return
        if out and out[-1][0] == 'E': out[-1] = ('E', out[-1][1] + (e,))
        else: out.append(('E', (e,)))
    seq_ty = {}
    def seq_push(self, v, e):
        out = list(v.segs)
        self._push_norm(out, e)
        return SeqV(tuple(out))

    # -- memory
    def get(self, st, root, path, raw=False):
        v = st.mem.get(root, UNDEF) if not isinstance(root, int) or root >= 0 else self.p.cmem[root]
        for s in path:
            v = self.step_in(st, v, s)
        return v if raw else self.force(v)
    def step_in(self, st, v, s):
        if isinstance(v, Sym): v = self.force(v)
        if isinstance(s, int):
            if isinstance(v, Agg):
                if s >= len(v.f):
                    raise Undecided('no field %s in %r' % (s, v))
                return v.f[s]
            if isinstance(v, Sym): return self.sym_child(v, 0, s)
            if isinstance(v, Ref): return v
            if isinstance(v, Nat): return self.models.nat_field(self, st, v, s)
            raise Undecided('field %s of %r' % (s, v))
        k = s[0]
        if k == 'v':
            if isinstance(v, Agg):
                if v.v != s[1]: raise Undecided('variant %s of %r' % (s[1], v))
                return v.f[s[2]]
            if isinstance(v, Sym): return self.sym_child(v, s[1], s[2])
            raise Undecided('variant field of %r' % (v,))
        if k == 'i':
            if isinstance(v, Agg):
                c = self.concrete(st, s[1])
                if c >= len(v.f) or c < 0: raise Undecided('index %s' % s[1])
                return v.f[c]
            if isinstance(v, SeqV): return self.seq_get(st, v, s[1])
            raise Undecided('element of %r' % (v,))
        if k == 'u':
            if isinstance(v, Nat) and v.k == 'union' : return v.d[1]
            return v
        raise Undecided('step %s' % (s,))
    def put(self, st, root, path, val):
        if not path:
            st.mem[root] = val
            return
        if isinstance(root, int) and root < 0: raise Undecided('write to a constant')
        st.mem[root] = self._put(st, st.mem.get(root, UNDEF), path, 0, val)
    def _put(self, st, v, path, i, val):
        if i == len(path): return val
        s = path[i]
        if isinstance(v, Sym): v = self.force(v)
        if isinstance(s, int):
            if isinstance(v, Sym):
                t = self.p.T[v.ty]
                if t['k'] not in ('struct',): raise Undecided('write into %s' % t['s'])
                v = Agg(0, tuple(self.sym_child(v, 0, j) for j in range(len(t['variants'][0]['fields']))))
            if v is UNDEF:
                v = Agg(0, tuple(UNDEF for _ in range(s + 1)))
            if isinstance(v, Nat): return self.models.nat_put(self, st, v, s, self._put(st, self.models.nat_field(self, st, v, s), path, i + 1, val))
            if isinstance(v, Ref) and i + 1 < len(path) or not isinstance(v, Agg): raise Undecided('write into %r' % (v,))
            f = list(v.f)
            while len(f) <= s: f.append(UNDEF)
            f[s] = self._put(st, f[s], path, i + 1, val)
            return Agg(v.v, tuple(f))
        k = s[0]
        if k == 'v':
            if isinstance(v, Sym):
                t = self.p.T[v.ty]
                v = Agg(s[1], tuple(self.sym_child(v, s[1], j) for j in range(len(t['variants'][s[1]]['fields']))))
            if v is UNDEF: v = Agg(s[1], tuple(UNDEF for _ in range(s[2] + 1)))
            if not isinstance(v, Agg) or v.v != s[1]: raise Undecided('write into variant of %r' % (v,))
            f = list(v.f)
            while len(f) <= s[2]: f.append(UNDEF)
            f[s[2]] = self._put(st, f[s[2]], path, i + 1, val)
            return Agg(v.v, tuple(f))
        if k == 'i':
            if isinstance(v, Agg):
                c = self.concrete(st, s[1])
                f = list(v.f)
                f[c] = self._put(st, f[c], path, i + 1, val)
                return Agg(v.v, tuple(f))
            if isinstance(v, SeqV):
                a, b = self.seq_split(st, v, s[1])
                m, b = self.seq_split(st, b, ONE)
                old = self.seq_get(st, v, s[1])
                new = self._put(st, old, path, i + 1, val)
                return self.seq_norm(st, a.segs + (('E', (new,)),) + b.segs)
        if k == 'u':
            return self._put(st, v, path, i + 1, val)
        raise Undecided('write step %s into %r' % (s, v))

    # -- places
    def place(self, st, fr, pl):
        """(root, path, window)"""
        root = fr.base + pl[0]
        if len(pl) == 1: return root, (), None
        path = ()
        win = None
        variant = None
        ptypes = self.p.info(fr.fn)
        for e in pl[1:]:
            if e == '*':
                v = self.get(st, root, path)
                v = self.as_ref(v)
                root, path, win = v.root, v.path, v.meta
                continue
            k = e[0]
            if k == 'f':
                if variant is not None:
                    path = path + (('v', variant, e[1]),)
                    variant = None
                else:
                    path = path + (e[1],)
            elif k == 'd': variant = e[1] if self._is_enum(st, fr, root, path) else None
            elif k == 'i':
                idx = self.get(st, fr.base + e[1], ())
                path = path + (('i', (win[0] + idx) if win else idx),)
                win = None
            elif k == 'c':
                off = e[1]
                if e[3]:
                    n = win[1] if win else self.seq_len(self.to_seq(self.get(st, root, path)))
                    idx = n - K(off)
                else: idx = K(off)
                path = path + (('i', (win[0] + idx) if win else idx),)
                win = None
            elif k == 's':
                n = win[1] if win else self.seq_len(self.to_seq(self.get(st, root, path)))
                b = win[0] if win else ZERO
                win = (b + K(e[1]), (n - K(e[2]) if e[3] else K(e[2])) - K(e[1]))
            elif k == 'o': pass
            else: raise Undecided('projection %s' % (e,))
        return root, path, win
    def _is_enum(self, st, fr, root, path):
        return True
    def as_ref(self, v):
        while isinstance(v, Agg) and v.f: v = v.f[0]
        if isinstance(v, Ref): return v
        if isinstance(v, Nat) and v.k == 'str' or isinstance(v, Opaque):
            r = self.p.ccache.get(v)
            if r is None:
                root = -1 - len(self.p.cmem)
                self.p.cmem[root] = v
                r = self.p.ccache[v] = Ref(root)
            return r
        raise Undecided('dereference of %r' % (v,))
    def place_ty(self, fr, pl):
        inf = self.p.info(fr.fn)
        key = json.dumps(pl) if len(pl) > 1 else pl[0]
        t = inf.ptypes.get(key)
        if t is None:
            t = fr.fn['locals'][pl[0]]
            for e in pl[1:]:
                if e == '*': t = self.p.T[t].get('of') or (self.p.T[t].get('args') or [None])[0]
                elif e[0] == 'f': t = e[2]
                elif e[0] in ('i', 'c'): t = self.p.T[t]['of']
                elif e[0] == 'o': t = e[1]
            inf.ptypes[key] = t
        return t
    def op_ty(self, fr, o):
        if o[0] in ('cp', 'mv'): return self.place_ty(fr, o[1])
        if o[0] == 'k': return o[1]
        return self.p.bool
    def read_place(self, st, fr, pl):
        root, path, win = self.place(st, fr, pl)
        if win is not None: raise Undecided('read of an unsized place')
        return self.get(st, root, path)
    def operand(self, st, fr, o):
        k = o[0]
        if k in ('cp', 'mv'): return self.read_place(st, fr, o[1])
        if k == 'k':
            if o[2] is None: return UNIT
            key = id(o)
            v = self.p.ccache.get(key)
            if v is None:
                v = self.p.ccache[key] = self.p.decode(o[1], o[2])
            return v
        if k == 'nv': return o[1]
        if k == 'rc': return o[1] == 'OverflowChecks' or o[1] == 'ContractChecks' and False
        raise Undecided('operand %s' % (o,))

    # -- arithmetic
    def trange(self, ty):
        w, s = self.p.int_info(ty)
        return (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)
    def in_range(self, x, ty):
        lo, hi = self.trange(ty)
        return f_and(f_leq(K(lo), x), f_leq(x, K(hi)))
    def wrap(self, st, x, ty):
        """x reduced to the range of ty"""
        w, s = self.p.int_info(ty)
        lo, hi = self.trange(ty)
        a, b = rng(x)
        if a >= lo and b <= hi: return x
        if not x.t:
            n = x.c & ((1 << w) - 1)
            if s and n >> (w - 1): n -= 1 << w
            return K(n)
        bits = to_bits(x, w)
        if bits is not None: 
            # keep the simple form where it is exact
            if st.facts.holds(self.in_range(x, ty)): return x
            return from_bits(bits, s)
        if st.facts.holds(self.in_range(x, ty)): return x
        a, b = st.facts.bounds(x)
        k0 = (a - lo) >> w
        k1 = (b - lo) >> w
        if k1 - k0 <= 3:
            fs = []
            for k in range(k0, k1 + 1):
                fs.append(f_and(f_leq(K(lo + (k << w)), x), f_leq(x, K(hi + (k << w)))))
            for k, f in zip(range(k0, k1 + 1), fs):
                if st.facts.holds(f): return x - K(k << w)
            raise Fork(tuple(fs))
        return self.opaque_mod(x, w, s)
    def opaque_mod(self, x, w, s):
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)
        kk = atom(('wrapk', x, w, s), 300, True)
        a = atom(('wrap', x, w, s), w, s, defs=lambda y: [('eq', A(y) - x + scale(A(kk), 1 << w))])
        return A(a)
    def bits(self, st, x, w, signed):
        b = to_bits(x, w)
        if b is None:
            lo, hi = st.facts.bounds(x)
            if hi - lo <= 8: return to_bits(K(self.concrete(st, x, 9)), w)
            # the low bits that only the constant decides
            g = 0
            while g < w - 1 and all(expand_even(v, g + 1) for _, v in x.t): g += 1
            low = x.c & ((1 << g) - 1)
            y0 = Lin(x.c - low, x.t)
            y0 = exact_div(y0, 1 << g)
            if y0 is None:
                g = low = 0
                y0 = x
            b = to_bits(y0, w - g)
            if b is None:
                a = atom(('val', y0, w - g, signed), w - g, signed, defs=lambda y: [('eq', A(y) - y0)])
                b = to_bits(A(a), w - g)
            b = [(low >> i) & 1 for i in range(g)] + b
        return b
    def lazy_shift(self, st, op, x, y, w, s):
        """shifts of one and of all ones by an unknown amount need no case split"""
        if x.t or s: return None
        f = st.facts
        if not (f.holds(f_leq(ZERO, y)) and f.holds(f_leq(y, K(w - 1)))): return None
        lo, hi = f.bounds(y)
        if lo == hi: return None
        if op.startswith('Shl') and x.c == 1: return pow2(y, w)
        if op.startswith('Shr') and x.c == (1 << w) - 1: return from_bits([below(K(w) - y, i) for i in range(w)])
        return None
    def divmod_c(self, st, x, c):
        """truncating division by a positive constant"""
        if not x.t:
            q = abs(x.c) // c
            if x.c < 0: q = -q
            return K(q), K(x.c - q * c)
        if not st.decide(f_leq(ZERO, x)):
            q, r = self.divmod_c(st, -x, c)
            return -q, -r
        if c & (c - 1) == 0:
            w = max(rng(x)[1].bit_length(), 1)
            b = to_bits(x, max(w, c.bit_length()))
            if b is not None:
                k = c.bit_length() - 1
                return from_bits(b[k:]) if b[k:] else ZERO, from_bits(b[:k]) if k else ZERO
        # common factors
        g = gcd(content(x), c)
        if g > 1:
            rest = x.c % g
            y = divexact(x - K(rest), g)
            if c // g == 1: q = y
            else: q = self.divmod_c0(st, y, c // g)
        else:
            q = self.divmod_c0(st, x, c)
        return q, x - scale(q, c)
    def divmod_c0(self, st, x, c):
        # pull out the constant and exactly divisible terms
        keep = []
        out = ZERO
        for a, v in x.t:
            if isinstance(v, int):
                if v % c == 0: out = out + Lin(0, ((a, v // c),)); continue
            elif all(z % c == 0 for z in v):
                out = out + Lin(0, ((a, tuple(z // c for z in v)),)); continue
            keep.append((a, v))
        y = Lin(x.c, tuple(keep))
        if not keep: return out + K(x.c // c)
        lo, hi = st.facts.bounds(y)
        if hi - lo < c and lo // c == hi // c: return out + K(lo // c)
        if (hi // c) - (lo // c) <= 3:
            ks = range(lo // c, hi // c + 1)
            fs = [f_and(f_leq(K(k * c), y), f_leq(y, K(k * c + c - 1))) for k in ks]
            for k, f in zip(ks, fs):
                if st.facts.holds(f): return out + K(k)
            raise Fork(tuple(fs))
        q = A(atom(('div', y, c), 200, True, lo // c, hi // c if hi >= 0 else hi // c,
                   defs=lambda a: [('le', scale(A(a), c) - y), ('le', y - scale(A(a), c) - K(c - 1))]))
        return out + q
    def mul(self, st, x, y):
        if not x.t: return scale(y, x.c)
        if not y.t: return scale(x, y.c)
        # the sign and a constant factor are kept outside
        fx, fy = content_all(x), content_all(y)
        x, y = divexact(x, fx), divexact(y, fy)
        if _lead(x) < 0: x = -x; fx = -fx
        if _lead(y) < 0: y = -y; fy = -fy
        if (hash(x), repr(x)) > (hash(y), repr(y)): x, y = y, x
        (a, b), (c, d) = rng(x), rng(y)
        ps = [a * c, a * d, b * c, b * d]
        m = atom(('mul', x, y), 300, True, min(ps), max(ps))
        return scale(A(m), fx * fy)
    def arith(self, st, op, x, y, ty):
        """mathematically exact result"""
        if op == 'Add': return x + y
        if op == 'Sub': return x - y
        if op == 'Mul': return self.mul(st, x, y)
        raise Undecided(op)
    def compare(self, st, op, x, y):
        if isinstance(x, Nat) and x.k == 'flt' and isinstance(y, Nat) and y.k == 'flt':
            if op == 'Ne': return f_not(self.compare(st, 'Eq', x, y))
            if op in ('Gt', 'Ge'): return self.compare(st, 'Lt' if op == 'Gt' else 'Le', y, x)
            return ('eq', A(atom(('fcmp', op, x.d[0], y.d[0]), 1)) - ONE)
        if isinstance(x, (Ref, Nat)) or isinstance(y, (Ref, Nat)): return self.models.ptr_compare(self, st, op, x, y)
        if is_formula(x) and is_formula(y):
            if op == 'Eq': return f_iff(x, y)
            if op == 'Ne': return f_not(f_iff(x, y))
            if op == 'Lt': return f_and(f_not(x), y)
            if op == 'Le': return f_or(f_not(x), y)
            if op == 'Gt': return f_and(x, f_not(y))
            if op == 'Ge': return f_or(x, f_not(y))
        if not isinstance(x, Lin) or not isinstance(y, Lin): raise Undecided('compare %r %r' % (x, y))
        if op == 'Eq': return f_eq(x, y)
        if op == 'Ne': return f_not(f_eq(x, y))
        if op == 'Lt': return f_lt(x, y)
        if op == 'Le': return f_leq(x, y)
        if op == 'Gt': return f_lt(y, x)
        if op == 'Ge': return f_leq(y, x)
    def as_int(self, st, v):
        if isinstance(v, Lin): return v
        if v is True: return ONE
        if v is False: return ZERO
        if is_formula(v):
            if v[0] == 'eq' and len(v[1].t) == 1 and v[1].c == -1 and rng(v[1] + ONE) == (0, 1): return v[1] + ONE
            if v[0] == 'ne' and len(v[1].t) == 1 and rng(v[1]) == (0, 1): return v[1]
            if v[0] == 'eq' and v[1].c == 0 and rng(v[1]) == (0, 1): return ONE - v[1]
            return ONE if st.decide(v) else ZERO
        raise Undecided('integer from %r' % (v,))
    def binop(self, st, op, x, y, ty, tyr=None):
        if isinstance(x, Nat) and x.k == 'flt' and isinstance(y, Nat) and y.k == 'flt' and op in ('Add', 'Sub', 'Mul', 'Div', 'Rem'):
            return Nat('flt', (op, x.d[0], y.d[0], self.p.T[ty].get('bits', 64)))
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            return self.compare(st, op, x, y)
        if is_formula(x) and (is_formula(y)):
            if op == 'BitAnd': return f_and(x, y)
            if op == 'BitOr': return f_or(x, y)
            if op == 'BitXor': return f_not(f_iff(x, y))
        if op == 'Offset': return self.models.ptr_offset(self, st, x, y)
        if op == 'Cmp':
            if is_formula(x): x = self.as_int(st, x)
            if is_formula(y): y = self.as_int(st, y)
            if st.decide(f_lt(x, y)): return Agg(0, ())
            return Agg(1, ()) if st.decide(f_eq(x, y)) else Agg(2, ())
        x = self.as_int(st, x); y = self.as_int(st, y)
        if op in ('Add', 'Sub', 'Mul'):
            return self.wrap(st, self.arith(st, op, x, y, ty), ty)
        if op in ('AddUnchecked', 'SubUnchecked', 'MulUnchecked'):
            return self.arith(st, op[:3], x, y, ty)
        w, s = self.p.int_info(ty)
        if op in ('BitAnd', 'BitOr', 'BitXor'):
            if op == 'BitAnd':
                for a, b in ((x, y), (y, x)):
                    if not b.t and b.c >= 0 and (b.c + 1) & b.c == 0 and rng(a)[0] >= 0 and rng(a)[1] <= b.c: return a
            bx = self.bits(st, x, w, s); by = self.bits(st, y, w, s)
            f = {'BitAnd': pand, 'BitOr': por, 'BitXor': pxor}[op]
            return from_bits([f(p, q) for p, q in zip(bx, by)], s)
        if op in ('Shl', 'Shr', 'ShlUnchecked', 'ShrUnchecked'):
            if y.t:
                z = self.lazy_shift(st, op, x, y, w, s)
                if z is not None: return z
                y = K(self.concrete(st, y, 256))
            k = y.c & (w - 1) if y.c >= 0 else y.c % w
            if k == 0: return x
            if op.startswith('Shl'):
                r = scale(x, 1 << k)
                lo, hi = self.trange(ty)
                a, b = rng(r)
                if a >= lo and b <= hi: return r
                bx = self.bits(st, x, w, s)
                return from_bits([0] * k + bx[:w - k], s)
            bx = to_bits(x, w)
            if bx is None:
                if rng(x)[0] >= 0 or st.facts.holds(f_leq(ZERO, x)): return self.divmod_c(st, x, 1 << k)[0]
                bx = self.bits(st, x, w, s)
            fill = bx[-1] if s else 0
            return from_bits(bx[k:] + [fill] * k, s)
        if op in ('Div', 'Rem'):
            if y.t:
                lo, hi = st.facts.bounds(y)
                if hi == lo: y = K(lo)
            if not y.t:
                if y.c == 0: raise PanicEx('division by zero')
                q, r = self.divmod_c(st, x, abs(y.c))
                if y.c < 0: q = -q
                return q if op == 'Div' else r
            lo, hi = self.trange(ty)
            return A(atom((op.lower(), x, y), 64 if w <= 64 else 128, s, lo, hi))
        raise Undecided('operator %s' % op)
    def cast(self, st, fr, kind, v, fty, ty):
        T = self.p.T
        if kind == 'IntToInt':
            v = self.as_int(st, v) if not isinstance(v, Agg) else self.discr_of(st, v, fty)
            return self.wrap(st, v, ty)
        if kind in ('PtrToPtr', 'FnPtrToPtr', 'ReifyFnPointer', 'MutToConstPointer', 'ArrayToPointer', 'UnsafeFnPointer') or kind.startswith('ReifyFnPointer') or kind.startswith('ClosureFnPointer'):
            if kind.startswith('Reify'):
                return Nat('fn', T[fty]['fn'][1])
            if kind == 'PtrToPtr' and T[fty]['k'] in ('ptr', 'ref') and T[ty]['k'] in ('ptr', 'ref'):
                a, b = T[T[fty]['of']], T[T[ty]['of']]
                if a['k'] == b['k'] == 'int' and a['bits'] != b['bits']: raise Undecided('pointer to other integers')
            if isinstance(v, Ref) and v.meta is not None and T[ty]['k'] in ('ptr', 'ref'):
                to = T[T[ty]['of']]
                if to['k'] not in ('slice', 'str', 'dyn'):
                    return Ref(v.root, v.path + (('i', v.meta[0]),))
            return v
        if kind in ('Unsize',):
            src = T[T[fty]['of']] if T[fty].get('of') is not None else None
            if src is not None and src['k'] == 'array' and isinstance(v, Ref):
                return Ref(v.root, v.path, (ZERO, K(src['n'])))
            return v
        if kind in ('PointerExposeAddress', 'PointerExposeProvenance'):
            return self.models.ptr_addr(self, st, v, fty)
        if kind == 'IntToFloat': return Nat('flt', ('i', self.as_int(st, v) if not isinstance(v, Agg) else v, T[ty].get('bits', 64)))
        if kind == 'FloatToFloat': return Nat('flt', ('cast', v.d[0], T[ty].get('bits', 64)))
        if kind == 'FloatToInt':
            w, s = self.p.int_info(ty)
            return A(atom(('ftoi', v.d[0], w, s), w, s))
        if kind in ('Transmute', 'BoxDerefTransmute'):
            return self.models.transmute(self, st, v, fty, ty)
        raise Undecided('cast %s' % kind)
    def discr_of(self, st, v, ty):
        """discriminant of an enum value as integer"""
        p = self.p
        if isinstance(v, Agg):
            t = p.T[ty] if ty is not None else None
            if t is None or 'variants' not in t: return K(v.v)
            return K(p.discr(ty, v.v))
        if isinstance(v, Sym):
            t = p.T[v.ty]
            if t['k'] == 'enum':
                n = len(t['variants'])
                x = self.enum_var(v)
                ds = [p.discr(v.ty, i) for i in range(n)]
                if all(d == ds[0] + i for i, d in enumerate(ds)): return x + K(ds[0])
                for i in range(n):
                    if st.facts.holds(f_eq(x, K(i))): return K(ds[i])
                raise Fork(tuple(f_eq(x, K(i)) for i in range(n)))
        if isinstance(v, Opaque) or isinstance(v, Nat):
            return self.models.nat_discr(self, st, v, ty)
        if v is UNDEF and ty is not None:
            # a value that takes no space is never written
            t = p.T[ty]
            if t['k'] == 'enum' and t.get('size') == 0:
                live = [i for i, x in enumerate(t['variants']) if not any(p.T[f[1]]['k'] == 'never' or p.T[f[1]]['s'].endswith('Infallible') for f in x['fields'])]
                if len(live) == 1: return K(p.discr(ty, live[0]))
        raise Undecided('discriminant of %r' % (v,))
    def variant_of(self, st, v):
        """concrete variant index"""
        if isinstance(v, Agg): return v.v
        if isinstance(v, Sym):
            return self.concrete(st, self.enum_var(v))
        raise Undecided('variant of %r' % (v,))

    def rvalue(self, st, fr, r):
        k = r[0]
        if k == 'use': return self.operand(st, fr, r[1])
        if k in ('ref', 'addr'):
            root, path, win = self.place(st, fr, r[-1])
            return Ref(root, path, win)
        if k == 'agg':
            ops = tuple(self.operand(st, fr, o) for o in r[4])
            if r[1] == 'rawptr':
                p = ops[0]
                if isinstance(p, Ref) and len(ops) > 1 and isinstance(ops[1], Lin):
                    return self.models.mk_slice(self, st, p, ops[1])
                return p
            if r[2] is not None and r[1] == "adt" and self.p.T[r[2]]['k'] == 'union':
                return ops[0]
            if r[1] == 'adt':
                h = self.models.AGG_ADT.get(self.p.adt(r[2]))
                if h: return h(self, st, r[2], r[3], ops)
            return Agg(r[3] if r[1] in ("adt", "some") else 0, ops)
        if k == 'bin':
            x = self.operand(st, fr, r[2]); y = self.operand(st, fr, r[3])
            return self.binop(st, r[1], x, y, self.op_ty(fr, r[2]), None)
        if k == 'cbin':
            x = self.operand(st, fr, r[2]); y = self.operand(st, fr, r[3])
            ty = self.op_ty(fr, r[2])
            if r[1] in ('Shl', 'Shr'):
                w, s = self.p.int_info(ty)
                ok = f_and(f_leq(ZERO, y), f_lt(y, K(w)))
                return Agg(0, (self.binop(st, r[1], x, y, ty), f_not(ok)))
            z = self.arith(st, r[1], x, y, ty)
            return Agg(0, (z, f_not(self.in_range(z, ty))))
        if k == 'cast':
            v = self.operand(st, fr, r[2])
            return self.cast(st, fr, r[1], v, self.op_ty(fr, r[2]), r[3])
        if k == 'discr':
            v = self.read_place(st, fr, r[1])
            return self.discr_of(st, v, self.place_ty(fr, r[1]))
        if k == 'variant':
            return K(self.variant_of(st, self.read_place(st, fr, r[1])))
        if k == 'len':
            root, path, win = self.place(st, fr, r[1])
            if win: return win[1]
            return self.seq_len(self.to_seq(self.get(st, root, path)))
        if k == 'rep':
            v = self.operand(st, fr, r[1])
            n = int(r[2])
            if n > 4096: raise Undecided('array of %d' % n)
            return Agg(0, (v,) * n)
        if k == 'un':
            v = self.operand(st, fr, r[2])
            if r[1] == 'Not':
                if is_formula(v): return f_not(v)
                w, s = self.p.int_info(self.op_ty(fr, r[2]))
                return (K(-1) if s else K((1 << w) - 1)) - v
            if r[1] == 'Neg' and isinstance(v, Nat) and v.k == 'flt': return Nat('flt', ('neg', v.d[0]))
            if r[1] == 'Neg':
                return self.wrap(st, -v, self.op_ty(fr, r[2]))
            if r[1] == 'PtrMetadata':
                if isinstance(v, Ref):
                    return v.meta[1] if v.meta is not None else UNIT
                raise Undecided('metadata of %r' % (v,))
        raise Undecided('rvalue %s' % (r[:2],))

    # -- frames
    def push(self, st, f, args, dest, ret):
        if 'blocks' not in f: raise Undecided('no body for %s' % f['name'])
        if len(st.frames) > 120: raise Undecided('call depth in %s' % f['name'])
        fr = Frame(f, st.nroot, dest, ret, st.nroot)
        st.nroot += len(f['locals'])
        for i, a in enumerate(args): st.mem[fr.base + 1 + i] = a
        st.frames.append(fr)
        if 'span' in f and self.p.local(f): self.stats['fns'].add(f['def'])
        return fr
    def ret(self, st, value):
        """value has been returned by a callee or native; deliver it to the top frame"""
    def start(self, st, f, args):
        return self.push(st, f, args, None, None)

    def run_fn(self, st, f, args, cut=None):
        """all outcomes of calling f in state st"""
        s = st.copy()
        s.frames = []
        s.visits = {}
        s.forks = 0
        old = self.cut
        self.cut = cut
        oldw = self.widen_state
        self.widen_state = {}
        try:
            self.push(s, f, args, None, None)
            return self.run([s])
        finally:
            self.cut = old
            self.widen_state = oldw

    def run(self, states):
        out = []
        work = list(states)
        import loops
        while work:
            st = work.pop()
            try:
                self.exec(st, work, out, loops)
            except Fork as e:
                self.fork(st, e, work, out)
            except Dead: pass
            except CutEx: out.append(Outcome('cut', st))
            except PanicEx as e:
                out.append(Outcome('panic', st, None, str(e)))
            except Undecided as e:
                out.append(Outcome('undecided', st, None, self.where(st) + ': ' + str(e)))
            except (AttributeError, TypeError, IndexError, KeyError, ValueError, RecursionError, AssertionError) as e:
                # a value outside of what the models expect
                if self.debug: raise
                out.append(Outcome('undecided', st, None, self.where(st) + ': not modelled: %s %s' % (type(e).__name__, e)))
            if self.stats['steps'] > self.budget or len(out) > self.max_out:
                out.append(Outcome('undecided', st, None, 'budget exhausted'))
                break
        self.stats['paths'] += len(out)
        return out
    def where(self, st):
        if not st.frames: return '?'
        fr = st.frames[-1]
        w = fr.fn['name']
        for f in reversed(st.frames):
            if self.p.local(f.fn):
                if f is not fr: w += ' < ' + f.fn['name']
                break
        return w + ' bb%d' % fr.bb
    def fork(self, st, e, work, out):
        self.stats['forks'] += 1
        n = 0
        span = None
        for f in e.forms:
            for g in (f[1] if isinstance(f, tuple) and f[0] == 'or' and len(f[1]) <= 4 else (f,)):
                s = st.copy()
                s.forks += 1
                # a disjunction is split into disjoint cases where it is cheap to do so
                if s.assume(g):
                    work.append(s)
                    n += 1
    def cur_span(self, fr):
        b = fr.fn['blocks'][fr.bb]
        x = b['s'][fr.si] if fr.si < len(b['s']) else b['t']
        sp = x[-1]
        return sp if isinstance(sp, list) and len(sp) == 2 else None
    def note(self, st):
        fr = st.frames[-1]
        if self.p.local(fr.fn):
            sp = self.cur_span(fr)
            if sp is not None:
                s = self.p.span(sp)
                if st.trail is None or st.trail[0] != s: st.trail = (s, st.trail)

    def exec(self, st, work, out, loops):
        while True:
            if not st.frames: raise Undecided('no frame')
            fr = st.frames[-1]
            f = fr.fn
            b = f['blocks'][fr.bb]
            stm = b['s']
            self.stats['steps'] += 1
            if self.stats['steps'] > self.budget: raise Undecided('budget exhausted')
            if self.within and len(st.frames) <= self.within[0] and (len(st.frames) < self.within[0] or fr.bb not in self.within[1]): return
            if fr.si == 0 and fr.bb in self.p.info(f).heads and fr.tag != ('seen', fr.bb):
                if self.cut and self.cut(self, st, fr):
                    out.append(Outcome('cut', st))
                    return
                r = loops.at_head(self, st, fr, work, out)
                if r is None: return
                st = r
                fr = st.frames[-1]
                fr.tag = ('seen', fr.bb)
            while fr.si < len(stm):
                s = stm[fr.si]
                if s[0] == '=':
                    v = self.rvalue(st, fr, s[2])
                    root, path, win = self.place(st, fr, s[1])
                    self.put(st, root, path, v)
                elif s[0] == 'sd':
                    raise Undecided('set discriminant')
                elif s[0] == 'assume': pass
                elif s[0] == 'cno':
                    self.models.copy_nonoverlapping(self, st, self.operand(st, fr, s[1]), self.operand(st, fr, s[2]), self.operand(st, fr, s[3]), self.op_ty(fr, s[1]))
                else: raise Undecided('statement %s' % s[0])
                fr.si += 1
            t = b['t']
            k = t[0]
            if k == 'goto': self.jump(fr, t[1]); continue
            if k == 'ret':
                v = self.get(st, fr.base, ()) if fr.base in st.mem else UNIT
                if v is UNDEF: v = UNIT
                st.frames.pop()
                for i in range(len(f['locals'])): st.mem.pop(fr.base + i, None)
                if not st.frames:
                    out.append(Outcome('ret', st, v))
                    return
                self.deliver(st, fr.dest, fr.ret, v)
                continue
            if k == 'switch':
                v = self.operand(st, fr, t[1])
                self.note(st)
                if is_formula(v):
                    d = st.facts.decide(v)
                    if d is None: raise Fork((v, f_not(v)))
                    n = 1 if d else 0
                    tgt = t[3]
                    for val, bb in t[2]:
                        if int(val) == n: tgt = bb
                    self.jump(fr, tgt); continue
                if not isinstance(v, Lin): raise Undecided('switch on %r' % (v,))
                ty = self.op_ty(fr, t[1])
                ii = self.p.int_info(ty) if ty is not None else (64, True)
                tgt = None
                vals = []
                for val, bb in t[2]:
                    n = int(val)
                    if ii and ii[1] and n >> (ii[0] - 1): n -= 1 << ii[0]
                    vals.append((n, bb))
                if not v.t:
                    tgt = t[3]
                    for n, bb in vals:
                        if n == v.c: tgt = bb
                    self.jump(fr, tgt); continue
                forms = []
                rest = []
                for n, bb in vals:
                    e = f_eq(v, K(n))
                    d = st.facts.decide(e)
                    if d is True:
                        tgt = bb
                        break
                    if d is False: continue
                    forms.append((e, bb))
                    rest.append(f_not(e))
                if tgt is None and not forms: tgt = t[3]
                if tgt is not None:
                    self.jump(fr, tgt); continue
                self.stats['forks'] += 1
                for e, bb in forms + [(f_and(*rest), t[3])]:
                    s = st.copy()
                    s.forks += 1
                    if s.assume(e):
                        self.jump(s.frames[-1], bb)
                        work.append(s)
                return
            if k == 'assert':
                if t[3].startswith('ub:'):
                    self.jump(fr, t[4]); continue
                v = self.operand(st, fr, t[1])
                ok = v if t[2] else f_not(v)
                d = st.facts.decide(ok)
                if d is None:
                    s = st.copy()
                    s.forks += 1
                    if s.assume(f_not(ok)):
                        self.note(s)
                        out.append(Outcome('panic', s, None, self.panic_msg(s, t[3])))
                    st.forks += 1
                    if not st.assume(ok): return
                elif d is False:
                    self.note(st)
                    out.append(Outcome('panic', st, None, self.panic_msg(st, t[3])))
                    return
                self.jump(fr, t[4]); continue
            if k == 'drop':
                g = t[3][1] if t[3] else None
                if g is None: self.jump(fr, t[2]); continue
                # the type, or something it holds, has a Drop of its own
                root, path, meta = self.place(st, fr, t[1])
                self.push(st, self.p.F[g], (Ref(root, path, meta),), (st.alloc(UNIT), ()), t[2])
                continue
            if k == 'call':
                r = self.call(st, fr, t)
                if r is not None:
                    if r == 'panic':
                        return
                continue
            if k == 'unreachable':
                # reached only if the facts are contradictory (or undefined behaviour)
                if not st.facts.feasible_all(): return
                raise Undecided('unreachable reached')
            raise Undecided('terminator %s' % k)
    def panic_msg(self, st, m):
        fr = st.frames[-1]
        w = fr.fn['def']
        for f in reversed(st.frames):
            if self.p.local(f.fn):
                w = f.fn['def']
                break
        return '%s in %s' % (m, w)
    def jump(self, fr, bb):
        fr.bb = bb
        fr.si = 0
        fr.tag = None
    def deliver(self, st, dest, target, v):
        fr = st.frames[-1]
        if target is None: raise Undecided('return into a diverging call')
        self.put(st, dest[0], dest[1], v)
        self.jump(fr, target)

    # -- calls
    def call(self, st, fr, t):
        func = t[1]
        args = tuple(self.operand(st, fr, a) for a in t[2])
        droot, dpath, _ = self.place(st, fr, t[3])
        dest = (droot, dpath)
        self.note(st)
        if func[0] == 'nat':
            r = func[1](self, st, args, fr, t)
            if r is not NotImplemented: self.deliver(st, dest, t[4], r)
            return
        if func[0] == 'k':
            ty = self.p.T[func[1]]
            fid = ty.get('fn')
            if isinstance(fid, list):
                if fid[0] != 'fn': raise Undecided('call of %s' % ty['s'])
                fid = fid[1]
            if fid is None: raise Undecided('call of %s' % ty['s'])
        else:
            v = self.operand(st, fr, func)
            if isinstance(v, Nat) and v.k == 'fn': fid = v.d[0]
            else: raise Undecided('indirect call')
        return self.call_id(st, fid, args, dest, t[4], [self.op_ty(fr, a) for a in t[2]])
    def constructor(self, f, args):
        """the value that a variant or a structure used as a function makes"""
        m = re.match(r'(.*)::(\w+)$', f['name'])
        if not f.get('nobody') or not m: return None
        std_ = {'std::prelude::v1::Some': 1, 'std::prelude::v1::Ok': 0, 'std::prelude::v1::Err': 1, 'std::option::Option::Some': 1, 'std::result::Result::Ok': 0, 'std::result::Result::Err': 1}
        if f['def'] in std_: return Agg(std_[f['def']], tuple(args))
        flat = lambda n: re.sub(r'::<', '<', n)
        ty, var = flat(m.group(1)), m.group(2)
        for t in self.p.d['types']:
            if t['k'] not in ('enum', 'struct'): continue
            n = flat(t['s'])
            if t['k'] == 'enum' and (n == ty or ty.endswith('::' + n) or n.endswith('::' + ty)):
                for i, v in enumerate(t['variants']):
                    if v['name'] == var and len(v['fields']) == len(args): return Agg(i, tuple(args))
            if t['k'] == 'struct' and (n == flat(f['name']) or flat(f['name']).endswith('::' + n)) and len(t['variants'][0]['fields']) == len(args): return Agg(0, tuple(args))
        return None
    def call_id(self, st, fid, args, dest, target, tys=None):
        f = self.p.F[fid]
        if self.on_call and self.on_call(self, st, f, args): pass
        h = self.ncache.get(fid)
        if h is None:
            h = self.native.get(f['def'])
            if h is None and f['kind'] == 'intrinsic':
                h = self.models.INTRINSICS.get(f.get('intrinsic') or f['def'].rsplit('::', 1)[-1])
            if h is None:
                for pat, g in self.pattern:
                    if pat(f):
                        h = g
                        break
            if h is None: h = False
            self.ncache[fid] = h
        if h:
            c = Call(f, args, dest, target, tys)
            mem = dict(st.mem)
            try: r = h(self, st, c)
            except Fork:
                # the call is repeated in each case
                st.mem = mem
                raise
            if isinstance(r, Pass): args = r.args
            else:
                if r is not NotImplemented:
                    if r is None: raise Undecided('model of %s' % f['name'])
                    self.deliver(st, dest, target, r)
                return
        if f.get('empty'):
            self.deliver(st, dest, target, UNIT)
            return
        if f['kind'] == 'shim' and f['def'] in ('std::ops::FnOnce::call_once', 'std::ops::FnMut::call_mut', 'std::ops::Fn::call'):
            a = args[1]
            rest = a.f if isinstance(a, Agg) else ()
            self.call_value(st, f['args'][0], args[0], rest, dest, target)
            return
        if 'blocks' not in f:
            v = self.constructor(f, args)
            if v is not None:
                self.deliver(st, dest, target, v)
                return
            raise Undecided('no model for %s' % f['name'])
        if self.p.closure_body.get(self._closure_self(f)) == fid and len(args) == 2 and f['argc'] != 2 or self._is_closure_call(f, args):
            a = args[1]
            args = (args[0],) + (a.f if isinstance(a, Agg) else ())
        self.push(st, f, args, dest, target)
    def _closure_self(self, f):
        t = self.p.T[f['locals'][1]] if f.get('argc') else None
        if t is None: return None
        if t['k'] == 'ref': t = self.p.T[t['of']]
        return t['id'] if t['k'] == 'closure' else None
    def _is_closure_call(self, f, args):
        return '{closure' in f['def'].rsplit('::', 1)[-1] and len(args) == 2 and self._closure_self(f) is not None
    def call_value(self, st, ty, selfv, args, dest, target):
        """calls a callable value; selfv is the value (or a reference to it)"""
        t = self.p.T[ty]
        while t['k'] == 'ref':
            # selfv is the reference itself or a reference to it
            inner = self.p.T[t['of']]
            if isinstance(selfv, Ref):
                v = self.force(self.get(st, selfv.root, selfv.path))
                if isinstance(v, Ref): selfv = v
                elif inner['k'] not in ('closure', 'ref'): selfv = v
            ty = t['of']
            t = inner
        if t['k'] == 'fndef':
            fid = t['fn'][1]
            f = self.p.F[fid]
            return self.call_id(st, fid, tuple(args), dest, target)
        if t['k'] == 'closure':
            fid = self.p.closure_body.get(ty)
            if fid is None: raise Undecided('no body of %s' % t['s'])
            f = self.p.F[fid]
            want_ref = self.p.T[f['locals'][1]]['k'] == 'ref'
            if want_ref and not isinstance(selfv, Ref):
                selfv = Ref(st.alloc(selfv))
            elif not want_ref and isinstance(selfv, Ref):
                selfv = self.get(st, selfv.root, selfv.path)
            self.push(st, f, (selfv,) + tuple(args), dest, target)
            return
        if t['k'] == 'fnptr':
            v = selfv
            if isinstance(v, Ref): v = self.get(st, v.root, v.path)
            if isinstance(v, Nat) and v.k == 'fn': return self.call_id(st, v.d[0], tuple(args), dest, target)
        raise Undecided('call of a value of type %s' % t['s'])

class Pass:
    """a model that only prepares the arguments of the real function"""
    def __init__(self, *args): self.args = tuple(args)

class Call:
    __slots__ = ('f', 'args', 'dest', 'target', 'tys')
    def __init__(self, f, args, dest, target, tys):
        self.f = f
        self.args = args
        self.dest = dest
        self.target = target
        self.tys = tys

def content_all(x):
    g = content(x)
    return gcd(g, x.c) if x.c else g

def _lead(x):
    a, v = x.t[0]
    if isinstance(v, int): return v
    for z in v:
        if z: return z
