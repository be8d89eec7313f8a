"""Decoding of messages: the decoder is analysed from each of its two modes for an arbitrary
buffer, and every path is compared with one step of the RTPS message interpreter."""
from check import *
from c_wire import *
from c_wire import is_bitvec, is_bytes, is_chars
from c_hist import items
from c_sets import uint
import c_sets, models, absint, re, os

H, B = 'header', 'submessage'

KINDS = {0x01: 'PAD', 0x06: 'ACKNACK', 0x07: 'HEARTBEAT', 0x08: 'GAP', 0x09: 'INFO_TS', 0x0c: 'INFO_SRC', 0x0d: 'INFO_REPLY_IP4',
         0x0e: 'INFO_DST', 0x0f: 'INFO_REPLY', 0x12: 'NACK_FRAG', 0x13: 'HEARTBEAT_FRAG'}
ITEMS = {'ACKNACK': ('AckNack', 'AckNack'), 'HEARTBEAT': ('Heartbeat', 'Heartbeat'), 'GAP': ('Gap', 'Gap'),
         'NACK_FRAG': ('NackFrag', 'NackFrag'), 'HEARTBEAT_FRAG': ('HeartbeatFrag', 'HeartbeatFrag')}
CONTEXT = ('source_version', 'source_vendor_id', 'source_guid_prefix', 'dest_guid_prefix', 'unicast_reply_locator_list', 'multicast_reply_locator_list', 'have_timestamp', 'timestamp')

class Step:
    """what one step of the specification does from (mode, offset): 'more' | 'err' | 'go' (mode, offset, context, item)"""
    def __init__(self, what, mode=None, at=None, effect=None, kind=None, body=None):
        self.what = what; self.mode = mode; self.at = at; self.effect = effect; self.kind = kind; self.body = body

class Decoder:
    def __init__(self, ck, eof=False):
        self.ck = ck
        ip = self.ip = ck.ip
        self.ty = ck.ty('MessageReceiver')
        self.rx = ck.ty('Receiver')
        self.new = ck.fn('MessageReceiver::new')
        self.f = ck.fn('<MessageReceiver as Decoder>::decode_eof' if eof else '<MessageReceiver as Decoder>::decode')
        self.eof = eof
        self.plain = ck.fn('<MessageReceiver as Decoder>::decode')
        fs = ck.p.T[self.ty]['variants'][0]['fields']
        c = [i for i, f in enumerate(fs) if f[1] == self.rx]
        if len(c) != 1: raise Anchor('receiver state of the decoder')
        self.ri = c[0]
        self.kind = ck.sym('LocatorKind_t', 'locator kind')
        self.sid = ('s', 'in')
        self.u8 = ck.ty('u8')
        ip.seq_ty[self.sid] = self.u8
        self.n = A(atom(('s', 'received'), 64, False, 0, (1 << 63) - 1))
        self.buf = SeqV((('S', self.sid, self.u8, ZERO, self.n),))
        self.old = ck.sym(self.rx, 'context')
        self.bits = bit_types(ck)

    # -- start states
    def prepare(self):
        """finds which fields tell the two modes apart. Every other field that ever changes (extra state) is arbitrary in the start states"""
        outs = self.ck.run(self.new, (self.kind,))
        if len(outs) != 1 or outs[0].kind != 'ret': raise Undecided('creation of a decoder')
        h = self.init = self.ip.force(outs[0].value)
        n = range(len(h.f))
        other = [i for i in n if i != self.ri]
        w = None
        for head in ((2, 1, 1, 1), (1, 0, 0, 0), (2, 2, 1, 2)):
            w = self.probe(h, b'RTPS' + bytes(head) + bytes(range(12)))
            if w is not None: break
        if w is None: raise Undecided('state after a header')
        diff = [i for i in other if w.f[i] != h.f[i]]
        z = self.probe(w, bytes((0x80, 0, 0, 0)))
        if z is None or all(self.differ(z.f[i], h.f[i]) for i in diff): z = h
        y = self.probe(w, bytes((0x80, 0, 4, 0, 0, 0, 0, 0)))
        if y is None or all(self.differ(y.f[i], w.f[i]) for i in diff): y = w
        self.modes = [i for i in diff if self.differ(w.f[i], h.f[i]) and not self.differ(z.f[i], h.f[i]) and not self.differ(y.f[i], w.f[i])]
        if not self.modes: raise Undecided('the modes are not told apart by the state')
        self.extras = set(i for i in diff if i not in self.modes)
        self.payload = any(isinstance(v.f[i], Agg) and v.f[i].f for i in self.modes for v in (h, w))
        self.cextra = [i for i, f in enumerate(self.ck.p.T[self.rx]['variants'][0]['fields']) if f[0] not in CONTEXT]
        self.href, self.bref = h, w
        return self.arbitrary()
    def differ(self, a, b):
        if isinstance(a, Agg) and isinstance(b, Agg) and (a.f or b.f): return a.v != b.v
        return a != b
    def probe(self, v, data):
        """the state in which these bytes leave this state, when there is only one"""
        self.hstate = v
        ends = []
        f, self.f = self.f, self.plain
        try: outs = self.run(H, State(), SeqV((('E', tuple(K(x) for x in data)),)))
        finally: self.f = f
        for o in outs:
            if o.kind not in ('ret', 'cut'): return None
            if o.kind == 'ret' and self.ip.variant_of(o.st, self.ip.force(o.value)) != 0: return None
            x = self.ip.force(o.st.mem[o.rr])
            if x not in ends: ends.append(x)
        return ends[0] if len(ends) == 1 else None
    def arbitrary(self):
        fs = self.ck.p.T[self.ty]['variants'][0]['fields']
        def start(ref):
            out = []
            for i, f in enumerate(fs):
                if i == self.ri: out.append(self.old)
                elif i in self.extras: out.append(self.ck.sym(f[1], 'extra %s' % f[0]))
                elif i in self.modes and isinstance(ref.f[i], Agg) and ref.f[i].f:
                    v = ref.f[i]
                    out.append(Agg(v.v, tuple(self.ck.sym(g[1], 'extra %s %s' % (f[0], g[0])) for g in self.ck.p.T[f[1]]['variants'][v.v]['fields'])))
                else: out.append(self.init.f[i] if i not in self.modes else ref.f[i])
            return Agg(ref.v, tuple(out))
        self.hstate, self.bstate = start(self.href), start(self.bref)
        self.over = bool(self.extras or self.payload or self.cextra)
        return self
    def mode_of(self, s, v):
        for m, ref in ((H, self.href), (B, self.bref)):
            for i in self.modes:
                x = self.ip.force(v.f[i])
                if isinstance(ref.f[i], Agg) and ref.f[i].f:
                    if self.ip.variant_of(s, x) != ref.f[i].v: break
                elif not (x == ref.f[i] or s.facts.holds(models.value_eq(self.ip, s, x, ref.f[i]))): break
            else: return m
        return None
    def run_all(self, modes, starts=None, whole=False):
        """{mode: outcomes}; a field found to change becomes extra state"""
        while True:
            outs = {}
            more = set()
            for m in modes:
                outs[m] = self.run(m, starts[m] if starts else None, whole=whole)
                for o in outs[m]:
                    if o.kind not in ('ret', 'cut'): continue
                    v = self.ip.force(o.st.mem[o.rr])
                    for i in range(len(v.f)):
                        if i == self.ri or i in self.modes or i in self.extras or i in more: continue
                        if v.f[i] is self._r0.f[i] or v.f[i] == self._r0.f[i]: continue
                        try:
                            if o.st.facts.holds(models.value_eq(self.ip, o.st, v.f[i], self._r0.f[i])): continue
                        except Fork: pass
                        more.add(i)
            if not more: return outs
            self.extras |= more
            self.arbitrary()
    def at_step(self, k, value):
        """the decoder in this state, about to receive the bytes of step k"""
        self.sid = ('s', 'in%d' % k)
        self.ip.seq_ty[self.sid] = self.u8
        self.n = A(atom(('s', 'received%d' % k), 64, False, 0, (1 << 63) - 1))
        self.buf = SeqV((('S', self.sid, self.u8, ZERO, self.n),))
        self.old = self.ip.force(value.f[self.ri])
        self.hstate = self.bstate = value
    def save(self): return self.sid, self.n, self.buf, self.old, self.hstate, self.bstate
    def restore(self, x): self.sid, self.n, self.buf, self.old, self.hstate, self.bstate = x
    def run(self, mode, st=None, buf=None, whole=False):
        st = (st or State()).copy()
        ip = self.ip
        self._r0 = self.hstate if mode == H else self.bstate
        self._b0 = buf if buf is not None else self.buf
        rr = st.alloc(self._r0)
        br = st.alloc(self._b0)
        self.roots = (rr, br)
        self._n0 = ip.seq_len(ip.to_seq(self._b0))
        with Again(self):
            if whole: outs = ip.run_fn(st, self.f, (Ref(rr), Ref(br)), cut=self.cut)
            else:
                with Summary(self): outs = ip.run_fn(st, self.f, (Ref(rr), Ref(br)), cut=self.cut)
        for o in outs:
            o.rr, o.br = rr, br
            if o.kind == 'cut' and o.st.ghost.get('hang'): o.kind = 'hang'
        return outs

    # -- a loop of the decoder that is entered before anything has happened stands for the
    #    whole decoder: coming back to it is a new call with the state reached
    def cut(self, ip, st, fr):
        if not ip.p.local(fr.fn): return False
        rr, br = self.roots
        key = (fr.uid, fr.bb)
        live = ip.p.info(fr.fn).live(fr.bb)
        keep = {}
        for g in st.frames:
            for i in range(len(g.fn['locals'])):
                if g is fr and i not in live: continue
                r = g.base + i
                if r in st.mem: keep[r] = st.mem[r]
        same_buf = st.mem[br] == self._b0
        same = same_buf and st.mem[rr] == self._r0
        first = st.ghost.get(key)
        if first is None:
            if same:
                st.ghost = dict(st.ghost)
                st.ghost[key] = keep
            return False
        if keep.keys() != first.keys(): return False
        for r in keep:
            if keep[r] is first[r] or keep[r] == first[r]: continue
            # the number of bytes at hand
            if first[r] == self._n0 and isinstance(keep[r], Lin) and st.facts.holds(f_eq(keep[r], ip.seq_len(ip.to_seq(st.mem[br])))): continue
            return False
        if same:
            st.ghost = dict(st.ghost)
            st.ghost['hang'] = True
            return True
        return not same_buf

    # -- the result of a path
    def final(self, s, o):
        """(kind, item, mode, offset, context); offset None when the buffer is not a rest of the input"""
        ip = self.ip
        kind = o.kind
        item = None
        if kind == 'ret':
            v = ip.force(o.value)
            if ip.variant_of(s, v) != 0: kind = 'err'
            else:
                w = ip.force(ip.step_in(s, v, ('v', 0, 0)))
                if ip.variant_of(s, w) == 0: kind = 'none'
                else:
                    kind = 'item'
                    item = ip.force(ip.step_in(s, w, ('v', 1, 0)))
        v = ip.force(s.mem[o.rr])
        mode = self.mode_of(s, v)
        seq = ip.to_seq(s.mem[o.br])
        segs = [g for g in seq.segs if not s.facts.holds(f_eq0(ip.seg_len(g)))]
        if not segs: off = self.n
        elif len(segs) == 1 and segs[0][0] == 'S' and segs[0][1] == self.sid and s.facts.holds(f_eq(segs[0][3] + segs[0][4], self.n)): off = segs[0][3]
        else: off = None
        return kind, item, mode, off, v.f[self.ri], not segs

    # -- the specification
    def byte(self, s, at): return self.ip.seq_get(s, self.buf, at)
    def bytes_at(self, s, at, k): return [self.byte(s, at + K(i)) for i in range(k)]
    def header_valid(self, s, at):
        b = self.bytes_at(s, at, 5)
        return f_and(*[f_eq(x, K(y)) for x, y in zip(b, b'RTPS')] + [f_leq(b[4], K(2))])
    def step(self, s, mode, at):
        m = self.n - at
        if mode == H:
            if not s.decide(f_leq(K(20), m)): return Step('more')
            if not s.decide(self.header_valid(s, at)): return Step('err', kind='header')
            return Step('go', B, at + K(20), kind='header', body=(at, K(20)))
        if not s.decide(f_leq(K(4), m)): return Step('more')
        kb, fb, l0, l1 = self.bytes_at(s, at, 4)
        little = s.decide(bit_formula(to_bits(fb, 8)[0]))
        ln = l0 + scale(l1, 256) if little else l1 + scale(l0, 256)
        kind = None
        for k in KINDS:
            if s.decide(f_eq(kb, K(k))):
                kind = KINDS[k]; break
        at4 = at + K(4)
        mode2 = B
        if kind not in ('PAD', 'INFO_TS') and s.decide(f_and(f_eq0(l0), f_eq0(l1))):
            mode2 = H
            end = self.n
        else:
            if not s.decide(f_leq(ln, m - K(4))): return Step('more')
            end = at4 + ln
        st = Step('go', mode2, end, kind=kind or 'other', body=(at4, end - at4))
        st.flags = fb
        st.big = not little
        return st

def bit_types(ck):
    """{function: type} of the readers of bit vectors: they are analysed on their own (bit_vectors)"""
    out = {}
    def only_bits(ty):
        t = ck.p.T[ty]
        for _ in range(6):
            if is_bitvec(ck)(t['id']): return True
            if t['k'] != 'struct': return False
            fs = [f for f in t['variants'][0]['fields'] if not ck.p.T[f[1]]['s'].startswith('std::marker::Phantom')]
            if len(fs) != 1: return False
            t = ck.p.T[fs[0][1]]
        return False
    for f in ck.fns(r"<.* as Readable<.*>>::read_from::<.*Reader<'_, Endianness>>"):
        if not ck.p.local(f): continue
        m = re.match(r'<(.*) as Readable', short(norm(f['name'])))
        try: ty = ck.ty(m.group(1))
        except Anchor: continue
        if only_bits(ty): out[f['id']] = ty
    return out

def words_needed(ip, s, c):
    return ip.binop(s, 'Div', c + K(31), K(32), ip.p.usize, None)

class Summary:
    """while active, a bit vector read from the input is an opaque value that tells where it was read"""
    def __init__(self, d): self.d = d
    def __enter__(self):
        ip = self.d.ip
        self.saved = {f: ip.ncache.get(f) for f in self.d.bits}
        for f, ty in self.d.bits.items(): ip.ncache[f] = self.model(ty)
    def __exit__(self, *a):
        ip = self.d.ip
        for f, h in self.saved.items():
            if h is None: ip.ncache.pop(f, None)
            else: ip.ncache[f] = h
    def model(self, ty):
        d = self.d
        def h(ip, st, c):
            if c.tys is None: c.tys = [c.f['locals'][1]]
            parts = models.reader_parts(ip, st, c)
            segs = ip.to_seq(ip.get(st, parts[2].root, parts[2].path[:-1])).segs
            if len(segs) != 1 or segs[0][0] != 'S' or segs[0][1] != d.sid: return absint.Pass(*c.args)
            at = segs[0][3] + parts[3]
            short_ = lambda: models.err(models.speedy_err(ip, 'UnexpectedEndOfInput'))
            if not st.decide(f_leq(parts[3] + K(4), parts[4])): return short_()
            big = models.is_big(ip, st, parts[5])
            cnt = uint(d.bytes_at(st, at, 4), big)
            if not st.decide(f_leq(cnt, K(256))): return short_()
            n = K(4) + scale(words_needed(ip, st, cnt), 4)
            if not st.decide(f_leq(parts[3] + n, parts[4])): return short_()
            models.reader_take(ip, st, parts, n)
            return models.ok(Sym(ty, ('bits', at, big, d.sid)))
        return h

class Again:
    """while active, a call of decode whose result is that of decode itself ends the path: it is a new call with the state reached"""
    def __init__(self, d): self.d = d
    def __enter__(self):
        ip = self.d.ip
        self.fs = [f['id'] for f in self.d.ck.fns(r'<MessageReceiver as Decoder>::decode(_eof)?')]
        self.saved = {f: ip.ncache.get(f) for f in self.fs}
        for f in self.fs: ip.ncache[f] = self.model(f)
    def __exit__(self, *a):
        for f, h in self.saved.items():
            if h is None: self.d.ip.ncache.pop(f, None)
            else: self.d.ip.ncache[f] = h
    def model(self, fid):
        d = self.d
        def h(ip, st, c):
            rr, br = d.roots
            if tuple(c.args) != (Ref(rr), Ref(br)): return absint.Pass(*c.args)
            same = st.mem[rr] == d._r0 and st.mem[br] == d._b0
            fr = st.frames[-1]
            if fr.fn['id'] != fid or not returns_call(fr.fn, fr.bb): return absint.Pass(*c.args)
            # the call of the function on the stack was made with nothing done yet
            if len(st.frames) > 1 and not (fid, len(st.frames) - 2) in st.ghost: return absint.Pass(*c.args)
            if same:
                st.ghost = dict(st.ghost)
                st.ghost['hang'] = True
            raise absint.CutEx()
        def first(ip, st, c):
            rr, br = d.roots
            if tuple(c.args) == (Ref(rr), Ref(br)) and st.mem[rr] == d._r0 and st.mem[br] == d._b0 and st.frames[-1].fn['id'] != fid:
                st.ghost = dict(st.ghost)
                st.ghost[(fid, len(st.frames) - 1)] = True
            return h(ip, st, c)
        return first

def returns_call(f, bb):
    """what the call at the end of the block returns is returned, with nothing done in between"""
    t = f['blocks'][bb]['t']
    if t[0] != 'call': return False
    if len(t[3]) != 1: return False
    cur = t[3][0]
    seen = set()
    todo = [(t[4], cur)]
    while todo:
        b, cur = todo.pop()
        if (b, cur) in seen: continue
        seen.add((b, cur))
        if len(seen) > 200: return False
        for s in f['blocks'][b]['s']:
            if s[0] != '=' or len(s[1]) != 1: return False
            if s[2] == ['use', ['mv', [cur]]]: cur = s[1][0]
            elif s[1][0] == cur or s[1][0] == 0: return False
            elif s[2][0] == 'ref': return False
        k = f['blocks'][b]['t']
        if k[0] == 'ret':
            if cur != 0: return False
        elif k[0] == 'goto': todo.append((k[1], cur))
        elif k[0] == 'switch': todo += [(x, cur) for _, x in k[2]] + [(k[3], cur)]
        elif k[0] == 'drop':
            if k[1][0] == cur: return False
            todo.append((k[2], cur))
        elif k[0] != 'unreachable': return False
    return True

class Short(Exception): pass
class Unclaimed(Exception): pass

class Body:
    """walks over the fields of a body"""
    def __init__(self, d, s, at, n, big):
        self.d = d; self.ck = d.ck; self.s = s; self.at = at; self.n = n; self.big = big
        self.pos = ZERO
    def need(self, k):
        k = k if isinstance(k, Lin) else K(k)
        if not self.s.decide(f_leq(self.pos + k, self.n)): raise Short()
    def take(self, k):
        self.need(k)
        b = self.d.bytes_at(self.s, self.at + self.pos, k)
        self.pos = self.pos + K(k)
        return b
    def skip(self, k):
        self.pos = self.pos + (k if isinstance(k, Lin) else K(k))
    def measure(self, ty):
        """raises Short when the bytes cannot hold a value of the type"""
        ck = self.ck
        n = tname(ck, ty)
        if n in SET_BASE:
            self.measure(ck.ty(SET_BASE[n]))
            c = uint(self.take(4), self.big)
            if not self.s.decide(f_leq(c, K(256))): raise Short()
            n = scale(words_needed(ck.ip, self.s, c), 4)
            self.need(n); self.skip(n)
        elif n == 'SequenceNumber_t': self.take(8)
        elif n in LAYOUT:
            for name, alt, lay in LAYOUT[n]:
                if isinstance(lay, str): self.measure(ck.fty(ty, name, alt=alt))
                else: self.take(lay[1])
        elif n in ENUMS: self.take(4)
        else: raise Anchor('layout of %s' % n)
    def match(self, ty, v):
        """formulas: the value consists of the bytes from here on"""
        ck = self.ck
        s = self.s
        n = tname(ck, ty)
        v = ck.ip.force(v)
        if n in SET_BASE:
            bt = SET_BASE[n]
            out = self.match(ck.fty(ty, 'base', alt=bt), ck.fld(s, v, ty, 'base', bt))
            here = self.at + self.pos
            c = uint(self.take(4), self.big)
            for xt in set(self.d.bits.values()):
                x = None
                if contains(ck, ty, lambda t: t == xt): x = find_in(ck, s, ty, v, lambda t: t == xt)[1]
                if isinstance(x, Sym) and x.key[0] == 'bits':
                    n = scale(words_needed(ck.ip, s, c), 4)
                    self.need(n); self.skip(n)
                    return out + [f_eq(x.key[1], here) if x.key[2] == self.big else False]
            cnt = ck.ip.concrete(s, c, 256)
            ws = [uint(self.take(4), self.big) for i in range((cnt + 31) // 32)]
            bty, bv = find_in(ck, s, ty, v, is_bitvec(ck))
            got, nb = bitset_parts(ck, s, bv, bty)
            first = None
            for msb in (False, True):
                fs = []
                for i in range(max(cnt, nb)):
                    want = False
                    if i < cnt: want = c_sets.bit_at(ck, s, ws[i // 32], 31 - i % 32 if msb else i % 32)
                    fs.append(c_sets.iff(c_sets.member(ck, s, got, nb, i), want))
                f = f_and(*fs) if fs else True
                if first is None: first = f
                if s.facts.holds(f): return out + [f]
            return out + [first]
        if n in LAYOUT and any(isinstance(l, str) for _, _, l in LAYOUT[n]):
            out = []
            for name, alt, lay in LAYOUT[n]:
                x = ck.fld(s, v, ty, name, alt)
                ft = ck.fty(ty, name, alt=alt)
                if isinstance(lay, str): out += self.match(ft, x)
                else: out += self.plain(ft, x, lay)
            return out
        want = spec_bytes(ck, s, ty, v, self.big)
        if want is None: raise Undecided('layout of %s' % n)
        return [f_eq(x, y) for x, y in zip(want, self.take(len(want)))]
    def plain(self, ty, x, lay):
        ck = self.ck
        b = self.take(lay[1])
        if lay[0] == INT: return [f_eq(p, q) for p, q in zip(int_bytes(ck.leaf(x), lay[1], self.big), b)]
        x = ck.ip.force(x)
        xs = [x] if isinstance(x, Lin) else items(ck, self.s, x)
        if len(xs) != lay[1]: return [False]
        return [f_eq(p, q) for p, q in zip(xs, b)]

# ---------------------------------------------------------------- what a step does to the context

def zeros(fs): return [f_eq0(x) for x in fs]

class Judge:
    def __init__(self, ck, want, eof=False):
        self.ck = ck
        self.ip = ck.ip
        self.want = want
        self.d = Decoder(ck, eof).prepare()
        self.eof = eof
        self.loc = ck.ty('Locator_t')
        self.ent = ck.ty('EntitySubmessage')
    def fty(self, name): return self.ck.fty(self.d.rx, name)
    def fval(self, s, ctx, name): return self.ck.fld(s, ctx, self.d.rx, name)
    def octets(self, s, ty, v): return spec_bytes(self.ck, s, ty, v, True)
    def only_locator(self, s, v, kind):
        """formula: a list of one locator of the kind without an address"""
        ip = self.ip
        seq = ip.to_seq(ip.force(v))
        if not s.decide(f_eq(ip.seq_len(seq), ONE)): return False
        l = ip.seq_get(s, seq, ZERO)
        k = self.ck.fld(s, l, self.loc, 'kind', 'LocatorKind_t')
        a = items(self.ck, s, self.ck.fld(s, l, self.loc, 'address', '[u8; 16]'))
        return f_and(models.value_eq(ip, s, k, kind), f_eq0(self.ck.leaf(self.ck.fld(s, l, self.loc, 'port', 'u32'))), *zeros(a))
    def unchanged(self, s, ctx, names, before):
        out = []
        for n in names:
            a, b = self.fval(s, ctx, n), self.fval(s, before, n)
            if a is b or a == b: continue
            out.append((self.same_value(s, a, b), 'the context field %s changes' % n))
        return out
    def same_value(self, s, a, b):
        if isinstance(self.ip.force(a), SeqV) or isinstance(self.ip.force(b), SeqV):
            x, y = self.ip.to_seq(self.ip.force(a)), self.ip.to_seq(self.ip.force(b))
            return True if x == y else models.seq_eq(self.ip, s, x, y)
        return models.value_eq(self.ip, s, a, b)

    def fresh(self, s, ctx, at):
        """the context after the header at this offset"""
        b = self.d.bytes_at(s, at, 20)
        out = []
        for n, part in (('source_version', b[4:6]), ('source_vendor_id', b[6:8]), ('source_guid_prefix', b[8:20])):
            got = self.octets(s, self.fty(n), self.fval(s, ctx, n))
            out.append((f_and(*[f_eq(x, y) for x, y in zip(got, part)]), '%s is not that of the header' % n))
        out.append((f_and(*zeros(self.octets(s, self.fty('dest_guid_prefix'), self.fval(s, ctx, 'dest_guid_prefix')))), 'a destination is set at the start of a message'))
        for n in ('unicast_reply_locator_list', 'multicast_reply_locator_list'):
            out.append((self.only_locator(s, self.fval(s, ctx, n), self.d.kind), '%s is not that of a new message' % n))
        out.append((f_not(self.fval(s, ctx, 'have_timestamp')), 'a timestamp is set at the start of a message'))
        return out

    def sub(self, s, f, args):
        """the value a function returns, with a case split over its paths"""
        outs = self.ck.run(f, args, s)
        known = set(map(repr, s.facts.conj()))
        if len(outs) > 1: raise Fork(tuple(f_and(*[g for g in o.st.facts.conj() if repr(g) not in known]) for o in outs))
        o = outs[0]
        if o.kind != 'ret': raise Undecided('%s: %s' % (f['name'], o.msg))
        s.mem = o.st.mem; s.facts = o.st.facts; s.nroot = o.st.nroot
        return o.value

    def locator_list(self, b):
        """(number, offset of the first) of a locator list"""
        c = uint(b.take(4), b.big)
        b.need(scale(c, 24))
        at = b.at + b.pos
        b.skip(scale(c, 24))
        return c, at
    def list_is(self, s, v, lst, big):
        c, at = lst
        ip = self.ip
        seq = ip.to_seq(ip.force(v))
        if not s.decide(f_eq(ip.seq_len(seq), c)): return False
        if s.facts.holds(f_eq0(c)): return True
        j = A(atom(('s', 'position'), 64))
        if not s.decide(f_lt(j, c)): return True
        e = ip.seq_get(s, seq, j)
        body = Body(self.d, s, at + scale(j, 24), K(24), big)
        return f_and(*body.match(self.loc, e))
    def has_unknown_kind(self, s, lst, big):
        """the path is one on which a locator of an unknown kind was found"""
        for k, v in s.facts.preds.items():
            if not v and isinstance(k, tuple) and k and k[0] == 'all elements readable': return True
        def moving(x):
            for a, _ in x.t:
                k = a.key if hasattr(a, 'key') else None
                if isinstance(k, tuple) and len(k) > 2 and k[0] == 'e' and isinstance(k[2], Lin) and k[2].t: return True
            return False
        if s.imprecise: return True
        c, at = lst
        known = [v & 0xffffffff for v in ENUMS['LocatorKind_t'].values()]
        for j in range(20):
            if not s.facts.holds(f_lt(K(j), c)): break
            x = uint(self.d.bytes_at(s, at + K(24 * j), 4), big)
            if all(s.facts.holds(f_not(f_eq(x, K(v)))) for v in known): return True
        return False

    def effect(self, s, st, ctx, before):
        """obligations on the context after an interpreter submessage; raises Short when it is malformed"""
        ck = self.ck
        ip = self.ip
        at, n = st.body
        b = Body(self.d, s, at, n, st.big)
        k = st.kind
        out = []
        rest = list(CONTEXT)
        def drop(*names):
            for x in names: rest.remove(x)
        flag = lambda i: s.decide(bit_formula(to_bits(st.flags, 8)[i]))
        if k == 'INFO_TS':
            if flag(1):
                if ctx is not None: out.append((f_not(self.fval(s, ctx, 'have_timestamp')), 'an invalidated timestamp is not marked absent'))
                drop('have_timestamp', 'timestamp')
            else:
                b.need(8)
                if ctx is not None:
                    out.append((self.fval(s, ctx, 'have_timestamp'), 'the timestamp is not marked present'))
                    out.append((f_and(*b.match(self.fty('timestamp'), self.fval(s, ctx, 'timestamp'))), 'the timestamp is not that of the body'))
                drop('have_timestamp', 'timestamp')
        elif k == 'INFO_DST':
            b.need(12)
            if ctx is not None: out.append((f_and(*b.match(self.fty('dest_guid_prefix'), self.fval(s, ctx, 'dest_guid_prefix'))), 'the destination is not that of the body'))
            drop('dest_guid_prefix')
        elif k == 'INFO_SRC':
            # the unused first field is subject of another property
            b.skip(self.unused())
            b.need(16)
            if ctx is not None:
                for n in ('source_version', 'source_vendor_id', 'source_guid_prefix'):
                    out.append((f_and(*b.match(self.fty(n), self.fval(s, ctx, n))), '%s is not that of the body' % n))
                inv = Agg(ck.variant('LocatorKind_t', 'LOCATOR_KIND_INVALID'), ())
                for n in ('unicast_reply_locator_list', 'multicast_reply_locator_list'):
                    out.append((self.only_locator(s, self.fval(s, ctx, n), inv), '%s is not invalidated' % n))
                out.append((f_not(self.fval(s, ctx, 'have_timestamp')), 'the timestamp of the earlier source is kept'))
            drop('source_version', 'source_vendor_id', 'source_guid_prefix', 'unicast_reply_locator_list', 'multicast_reply_locator_list', 'have_timestamp', 'timestamp')
        elif k == 'INFO_REPLY':
            lists = [self.locator_list(b)]
            if flag(1): lists.append(self.locator_list(b))
            if ctx is None:
                if any(self.has_unknown_kind(s, l, st.big) for l in lists): raise Unclaimed()
            else:
                out.append((self.list_is(s, self.fval(s, ctx, 'unicast_reply_locator_list'), lists[0], st.big), 'the unicast reply locators are not those of the body'))
                m = self.fval(s, ctx, 'multicast_reply_locator_list')
                if len(lists) > 1: out.append((self.list_is(s, m, lists[1], st.big), 'the multicast reply locators are not those of the body'))
                else: out.append((f_eq0(ip.seq_len(ip.to_seq(m))), 'multicast reply locators without the multicast flag'))
            drop('unicast_reply_locator_list', 'multicast_reply_locator_list')
        elif k == 'INFO_REPLY_IP4':
            b.need(16 if flag(1) else 8)
            if ctx is not None:
                out.append((self.compact(s, b, self.fval(s, ctx, 'unicast_reply_locator_list')), 'the unicast reply locator is not that of the body'))
                m = self.fval(s, ctx, 'multicast_reply_locator_list')
                if flag(1): out.append((self.compact(s, b, m), 'the multicast reply locator is not that of the body'))
                else: out.append((f_eq0(ip.seq_len(ip.to_seq(m))), 'multicast reply locators without the multicast flag'))
            drop('unicast_reply_locator_list', 'multicast_reply_locator_list')
        if ctx is not None: out += self.unchanged(s, ctx, rest, before)
        return out
    def compact(self, s, b, v):
        ck = self.ck
        ip = self.ip
        seq = ip.to_seq(ip.force(v))
        if not s.decide(f_eq(ip.seq_len(seq), ONE)): return False
        got = ip.seq_get(s, seq, ZERO)
        a, p = uint(b.take(4), b.big), uint(b.take(4), b.big)
        kind = ck.fld(s, got, self.loc, 'kind', 'LocatorKind_t')
        # ports that do not exist are subject of another property
        if not s.decide(f_leq(p, K(65535))): return True
        addr = items(ck, s, ck.fld(s, got, self.loc, 'address', '[u8; 16]'))
        octets = self.v4(a)
        kinds = ['LOCATOR_KIND_UDPv4']
        # the unspecified address has no kind (a rule of the conversion of addresses)
        if s.decide(f_eq0(a)): kinds.append('LOCATOR_KIND_INVALID')
        return f_and(ip.variant_of(s, kind) in [ck.variant('LocatorKind_t', x) for x in kinds], f_eq(ck.leaf(ck.fld(s, got, self.loc, 'port', 'u32')), p),
                     *(zeros(addr[:12]) + [f_eq(x, y) for x, y in zip(addr[12:], octets)]))
    def v4(self, a):
        return int_bytes(a, 4, True)
    _unused = None
    def unused(self):
        if self._unused is None:
            ck = self.ck
            ty = ck.ty('InfoSource')
            bs = [A(atom(('s', 'src%d' % i), 8)) for i in range(16)]
            outs = decode(ck, ty, SeqV((('E', tuple(bs)),)), 'LittleEndian')
            self._unused = 0 if all(o.kind == 'ret' and o.value[0] is not None for o in outs) else 4
        return self._unused

    def item(self, s, st, item):
        """obligations on the item of an entity submessage; item None: only whether it is well formed"""
        ck = self.ck
        name, tn = ITEMS[st.kind]
        at, n = st.body
        ty = ck.ty(tn)
        Body(self.d, s, at, n, st.big).measure(ty)
        if item is None: return []
        vi = self.ip.variant_of(s, item)
        if ck.p.T[self.ent]['variants'][vi]['name'] != name: return [(False, 'the item is of another kind')]
        out = []
        fs = ck.p.T[self.ent]['variants'][vi]['fields']
        for i, f in enumerate(fs):
            x = self.ip.force(self.ip.step_in(s, item, ('v', vi, i)))
            if f[1] == ty:
                b = Body(self.d, s, at, n, st.big)
                tt = ck.p.T[ty]
                out.append((f_and(*b.match(ty, x)), 'the fields of the %s item are not those received' % name))
            elif tname(ck, f[1]) == 'SubmessageFlag':
                out.append((f_eq(ck.leaf(x), st.flags), 'the flags of the %s item are not those received' % name))
        return out

    # -- comparison of a path with the specification
    def judge(self, s, o, mode):
        """[(tag, formula, text)]"""
        ip = self.ip
        d = self.d
        kind, item, mode2, off, ctx, empty = d.final(s, o)
        at = ZERO
        cur = mode
        before = d.old
        pend = []          # obligations on the context after the last step
        def resting(tag, m):
            """the path ends at this offset in this mode"""
            return [(tag, off is not None and f_eq(off, at), 'the bytes consumed are not those of the complete header and submessages'),
                    (tag, mode2 == m, 'the decoder is left in the wrong mode')]
        def failed(tag):
            return [(tag, kind == 'err', 'not reported as an error'), (tag, empty, 'bytes of an invalid message are kept'), (tag, mode2 == H, 'the next bytes are not decoded as a new message')]
        for n in range(4):
            st = d.step(s, cur, at)
            if st.what == 'more':
                if self.eof:
                    if s.decide(f_eq(at, d.n)):
                        out = [('C08', kind != 'err', 'a datagram that ends after a submessage is reported as an error'), ('C08', kind == 'err' or kind == 'none', 'an item without a submessage'),
                               ('C08', mode2 == H, 'the next bytes are not decoded as a new message'), ('C08', empty, 'bytes are kept')]
                        if kind == 'cut': return resting('C03', cur) + pend_of(pend, s, ctx)
                        return out
                    if kind == 'cut': return resting('C03', cur) + pend_of(pend, s, ctx)
                    return failed('C08')
                out = [('C03', kind in ('none', 'cut'), 'incomplete input yields a result')]
                if kind not in ('none', 'cut'): return out
                out += resting('C03', cur)
                if not pend and n == 0: out += [('C03', f, t) for f, t in self.unchanged(s, ctx, CONTEXT, before)]
                return out + pend_of(pend, s, ctx)
            if st.what == 'err': return failed('C04')
            tag = 'C02'
            if st.kind == 'header':
                if kind == 'err' and s.facts.holds(f_eq(d.n, st.at)): return [('C04', False, 'a valid header is rejected')]
                hat = at
                pend = [('C05', lambda s, ctx, hat=hat: self.fresh(s, ctx, hat))]
                at, cur = st.at, st.mode
                if kind == 'cut' or (off is not None and s.facts.holds(f_eq(off, at)) and kind != 'err'):
                    return resting('C04', cur) + pend_of(pend, s, ctx) + self.withheld(s, kind, cur, at)
                if kind == 'err' and n == 0: 
                    # an error must come from what follows
                    if self.d.step(s, cur, at).what == 'more' and not self.eof: return [('C04', False, 'a valid header is rejected')]
                continue
            if pend and st.kind not in ITEMS:
                # more than one step at once: the context is compared with that after the header
                raise Undecided('several submessages in one step')
            try:
                if st.kind in ITEMS: obl = self.item(s, st, item if kind == 'item' else None)
                else: obl = self.effect(s, st, None if kind in ('err', 'item') else ctx, before)
            except Short: return failed('C08')
            except Unclaimed: return []
            t = 'C07' if st.kind in ITEMS else 'C06'
            if kind == 'err': return [(t, False, 'a well formed submessage (%s) is rejected' % st.kind)]
            if kind == 'none' and off is not None and s.facts.holds(f_eq(off, at)) and not s.facts.holds(f_eq(st.at, at)):
                return [(x, False, 'a complete submessage is withheld') for x in ('C02', 'C03')]
            at, cur = st.at, st.mode
            out = [('C02', off is not None and f_eq(off, at), 'the bytes consumed are not the header and the declared length'),
                   ('C02' if cur == B else 'C08', mode2 == cur, 'the decoder is left in the wrong mode')]
            if st.kind in ITEMS:
                out.append(('C07', kind == 'item', 'a well formed %s submessage yields no item' % st.kind))
                if kind == 'item':
                    out += [('C07', f, x) for f, x in obl]
                    if pend: out += pend_of(pend, s, ctx)
                    else: out += [('C07', f, x) for f, x in self.unchanged(s, ctx, CONTEXT, before)]
                return out
            out.append(('C06', kind != 'item', 'an item for a submessage (%s) that yields none' % st.kind))
            if kind == 'item': return out
            out += [('C06', f, x) for f, x in obl]
            return out + self.withheld(s, kind, cur, at)
        raise Undecided('several submessages in one step')
    def withheld(self, s, kind, mode, at):
        """asking for more bytes is right only when the next step is incomplete"""
        if kind != 'none': return []
        if self.eof and mode == H and s.facts.holds(f_eq(at, self.d.n)): return []
        m = self.d.n - at
        if mode == H: return [('C03', f_lt(m, K(20)), 'a complete header is withheld')]
        st = self.d.step(s, mode, at)
        return [('C03', st.what == 'more', 'a complete submessage is withheld')]

def pend_of(pend, s, ctx):
    return [(t, f, x) for t, fn in pend for f, x in fn(s, ctx)]

def bit_vectors(ck, tag):
    """the readers of bit vectors that stand behind the opaque values: when they fail, what they consume (C08) and what they yield (C07)"""
    ip = ck.ip
    for ty in sorted(set(bit_types(ck).values())):
        n = tname(ck, ty)
        for endian in ENDIANS:
            big = endian == 'BigEndian'
            def lengths():
                seq, m = c_sets.input_bytes(ck)
                outs = decode(ck, ty, seq, endian, State(), raw=True)
                def post(s, v):
                    if not s.decide(f_leq(K(4), m)): return [(v[0] is None, 'a truncated set is accepted')]
                    c = uint([ip.seq_get(s, seq, K(i)) for i in range(4)], big)
                    if not s.decide(f_leq(c, K(256))): return [(v[0] is None, 'a set of more than 256 bits is accepted')]
                    k = K(4) + scale(words_needed(ip, s, c), 4)
                    if not s.decide(f_leq(k, m)): return [(v[0] is None, 'a truncated set is accepted')]
                    if v[0] is None: return [(False, 'a well formed set is rejected')]
                    return [(f_eq(v[1], k), 'the bytes consumed are not the count and its words')]
                ck.prove('%s %s length' % (n, endian), outs, post, panic=lambda o: False, msg='reading a bit vector')
            ck.group('%s %s length' % (n, endian), lengths)
            if tag != 'C07': continue
            def values():
                for k in (range(257) if ck.tier == 'thorough' else (0, 1, 7, 31, 32, 33, 63, 64, 65, 128, 193, 255, 256)):
                    w = [A(atom(('s', 'bitmap%d' % i), 32)) for i in range((k + 31) // 32)]
                    bs = int_bytes(K(k), 4, big)
                    for x in w: bs = bs + int_bytes(x, 4, big)
                    outs = decode(ck, ty, SeqV((('E', tuple(bs)),)), endian, raw=True)
                    def post(msb):
                        def p(s, v):
                            if v[0] is None: return [(False, 'a set within the limit is rejected')]
                            bt, bv = find_in(ck, s, ty, v[0], is_bitvec(ck))
                            ws, nb = bitset_parts(ck, s, bv, bt)
                            fs = [c_sets.iff(c_sets.member(ck, s, ws, nb, i), c_sets.bit_at(ck, s, w[i // 32], 31 - i % 32 if msb else i % 32) if i < k else False) for i in range(max(k, nb))]
                            return [(f_and(*fs) if fs else True, 'the members are not the bits set within the declared count')]
                        return p
                    def shown(msb): return all(o.kind == 'ret' and all(o.st.facts.holds(x) for s, fs in ck.cases(o.st, lambda s: post(msb)(s, o.value)) for x, _ in fs) for o in outs)
                    ck.prove('%s %s members' % (n, endian), outs, post(not shown(False) and shown(True)), panic=lambda o: False, msg='members of a set of %d bits' % k)
            ck.group('%s %s members' % (n, endian), values)

def run_modes(ck, tags, modes, eof=False, assume=None):
    """analyses the decoder and records the obligations with one of the tags"""
    try: j = Judge(ck, tags, eof)
    except Anchor as e: return ck.undecided('decoder', 'anchor: %s' % e)
    except Undecided as e: return ck.undecided('decoder', str(e))
    d = j.d
    def start(mode):
        st = State()
        if assume is not None:
            for f in assume(j, mode, st):
                if not st.assume(f): raise Undecided('no such input')
        return st
    label = lambda mode: ('end of input, ' if eof else '') + mode
    def obligations(o, mode):
        for s, obl in ck.cases(o.st, lambda s: j.judge(s, o, mode)):
            for tag, f, text in obl:
                if tag in tags: yield s, f, text
    def go():
        runs = d.run_all(modes, {m: start(m) for m in modes})
        open_ = []
        for mode in modes:
            tally = {}
            name0 = label(mode)
            for o in runs[mode]:
                if o.kind == 'undecided':
                    ck.undecided(name0, o.msg); continue
                if o.kind in ('panic', 'hang'): continue      # another property
                try:
                    for s, f, text in obligations(o, mode):
                        key = '%s: %s' % (name0, text)
                        if s.facts.holds(f): tally[key] = tally.get(key, 0) + 1
                        elif d.over: open_.append((mode, name0, s, f, text))
                        else: ck.refute(name0, s, f, text, None)
                except Undecided as e: ck.undecided(name0, 'comparison: %s' % e)
            for k, n in sorted(tally.items()): ck.ok('not ' + k, '%d cases' % n)
        if open_: settle(ck, d, open_, label, lambda o, mode: obligations(o, mode), start, runs)
    ck.group('end of input' if eof else 'decoder', go)
    return j

def settle(ck, d, open_, label, obligations, start, runs, whole=False):
    """obligations that fail for an arbitrary value of the extra state of the decoder are violations only when a history from a new decoder leads there"""
    wanted = set((name, text) for _, name, _, _, text in open_)
    keep = d.save()
    try:
        for name, s, f, text in histories(ck, d, wanted, label, obligations, start, whole, runs):
            n = len(ck.viol)
            ck.refute(name, s, f, text, None)
            if len(ck.viol) > n: wanted.discard((name, text))
            if not wanted: break
    finally: d.restore(keep)
    for mode, name, s, f, text in open_:
        if (name, text) not in wanted: continue
        if counted(ck, d, mode, name, s, f, text, runs): wanted.discard((name, text))
    for name, text in sorted(wanted): ck.undecided(name, '%s (for an arbitrary value of %s; no history found)' % (text, ', '.join(extra_names(d))))

def extra_names(d):
    fs = d.ck.p.T[d.ty]['variants'][0]['fields']
    out = [fs[i][0] for i in sorted(d.extras)]
    if d.payload: out.append('the state of the mode')
    return out + [d.ck.p.T[d.rx]['variants'][0]['fields'][i][0] for i in d.cextra]

def extra_values(d, v):
    ip = d.ip
    ctx = ip.force(v.f[d.ri])
    return [v.f[i] for i in sorted(d.extras)] + [x for i in d.modes for x in [ip.force(v.f[i])] if isinstance(x, Agg)] + [ip.force(ctx.f[i]) if isinstance(ctx, Agg) else ctx for i in d.cextra]

HISTORIES = 12

def context_is_free(d, runs):
    """submessages that set the context leave the extra state alone: any context goes with any extra state"""
    if d.cextra: return False
    outs = runs[B] if B in runs else d.run(B)
    for o in outs:
        if o.kind == 'undecided': return False
        if o.kind not in ('ret', 'cut'): continue
        v = d.ip.force(o.st.mem[o.rr])
        if o.kind == 'ret':
            r = d.ip.force(o.value)
            try:
                if d.ip.variant_of(o.st, r) != 0 or d.ip.variant_of(o.st, d.ip.force(d.ip.step_in(o.st, r, ('v', 0, 0)))) != 0: continue
            except Fork: return False
        if any(v.f[i] != d.bstate.f[i] for i in d.extras): return False
        if d.payload and d.mode_of(o.st, v) == B and any(v.f[i] != d.bstate.f[i] for i in d.modes): return False
    return True

def histories(ck, d, wanted, label, obligations, start, whole, runs):
    """obligations that fail after a sequence of calls from a new decoder, each consuming a whole message part"""
    ip = d.ip
    free = context_is_free(d, runs)
    queue = [(d.init, Facts(), None, H, False)]
    seen = {(H, shape(d, d.init), False)}
    for k in range(HISTORIES if ck.tier == 'quick' else 3 * HISTORIES):
        if not queue: return
        value, facts, imprecise, mode, wide = queue.pop(0)
        if free and mode == B: value = Agg(value.v, tuple(ck.sym(d.rx, 'context%d' % k) if i == d.ri else x for i, x in enumerate(value.f)))
        d.at_step(k, value)
        st = start(mode)
        if not st.assume(*facts.conj()): continue
        st.imprecise = imprecise
        name = label(mode)
        more = []
        for o in d.run(mode, st, whole=whole):
            if o.kind == 'undecided': continue
            if whole and o.kind in ('panic', 'hang') or not whole and o.kind not in ('panic', 'hang'):
                try:
                    for s, f, text in obligations(o, mode):
                        if (name, text) in wanted and not s.facts.holds(f): yield name, s, f, text
                except Undecided: pass
            if o.kind not in ('ret', 'cut'): continue
            try: more += list(successors(ck, d, o))
            except Undecided: pass
        d.hstate = d.bstate = value
        fresh = []
        for v, fs, imp, m in more:
            key = (m, shape(d, v), free and (m == B or d.ip.force(v.f[d.ri]) == d.old and (mode == B or wide)))
            if key in seen: continue
            seen.add(key)
            fresh.append((v, fs, imp, m, key[2]))
        queue += fresh

def successors(ck, d, o):
    for s, r in ck.cases(o.st, lambda s: (d.final(s, o), s.mem[o.rr])):
        (kind, item, mode, off, ctx, empty), v = r
        if mode is None: continue
        if kind != 'err':
            if off is None: continue
            if not s.assume(f_eq(off, d.n)): continue
        yield d.ip.force(v), s.facts, s.imprecise, mode

def shape(d, v):
    """what tells apart the states worth following"""
    out = []
    for x in extra_values(d, v):
        t = repr(x)
        if "'s'" in t or "'in" in t: t = re.sub(r'[0-9]+', '#', t)[:300]
        out.append(t)
    return tuple(out)

COUNT = 3000

def counted(ck, d, mode, name, s, f, text, runs):
    """an integer that some step raises by one takes every value from its first one on: the obligation fails at one of them"""
    if s.imprecise: return False
    bad = s.facts.with_(f_not(f))
    if bad is None: return False
    ip = d.ip
    fs = ck.p.T[d.ty]['variants'][0]['fields']
    for i in sorted(d.extras):
        if ck.p.T[fs[i][1]]['k'] != 'int': continue
        x = ip.force(d.hstate.f[i])
        first = ip.force(d.init.f[i])
        if not isinstance(first, Lin) or first.t: continue
        rest = [(d.hstate.f[k], d.init.f[k]) for k in d.extras if k != i]
        def others(facts):
            for a, b in rest:
                try: g = models.value_eq(ip, s, a, b)
                except Fork: return None
                facts = facts.with_(g)
                if facts is None: return None
            return facts
        b = others(bad)
        if b is None: continue
        steps = []
        for m, outs in runs.items():
            for o in outs:
                if o.kind not in ('ret', 'cut') or o.st.imprecise: continue
                v = ip.force(o.st.mem[o.rr])
                if any(k != i and v.f[k] != d.hstate.f[k] for k in d.extras): continue
                if not isinstance(ip.force(v.f[i]), Lin) or not o.st.facts.holds(f_eq(ip.force(v.f[i]), x + ONE)): continue
                g = others(o.st.facts)
                if g is not None: steps.append(g)
        if not steps: continue
        last = 0
        for c in range(COUNT):
            val = first + K(c)
            at = b.with_(f_eq(x, val))
            if at is not None:
                for z in split_ors(at):
                    if z.ors: continue
                    w = witness.witness(z)
                    if w is None: continue
                    if (name, text) in ck.refuted: return True
                    ck.refuted.add((name, text))
                    ck.violation(name, '%s' % text, None, s, w)
                    return True
            # the step from this value to the next one
            n = len(steps)
            for t in range(n):
                g = steps[(last + t) % n].with_(f_eq(x, val))
                if g is None: continue
                if any(not z.ors and witness.witness(z) is not None for z in split_ors(g)):
                    last = (last + t) % n
                    break
            else: break
    return False

def c04(ck):
    """Every path of the decoder at the start of a message, for any buffer: with 20 bytes or more the header is accepted exactly when the magic and the major version allow it, and an error leaves nothing to interpret."""
    run_modes(ck, ('C04',), (H,))
    run_modes(ck, ('C04',), (H,), eof=True)

def c05(ck):
    """Every path of the decoder that accepts a header, from an arbitrary earlier context: each field of the context afterwards."""
    run_modes(ck, ('C05',), (H,))
    run_modes(ck, ('C05',), (H,), eof=True)

def body_check(tag):
    def c(ck):
        if tag in ('C07', 'C08'): bit_vectors(ck, tag)
        run_modes(ck, (tag,), (H, B))
        if tag in ('C03', 'C08') or ck.tier == 'thorough': run_modes(ck, (tag,), (H, B), eof=True)
    return c
c02, c03, c06, c07, c08 = [body_check(x) for x in ('C02', 'C03', 'C06', 'C07', 'C08')]

# ---------------------------------------------------------------- C01, C09

def every_decode(ck):
    """(name, outcomes, bytes available, the decoder and its mode) of the decoder in every mode and of the reader of every wire type, on any number of arbitrary bytes"""
    for eof in (False, True):
        def dec():
            try: d = Decoder(ck, eof).prepare()
            except Anchor as e: return ck.undecided('decoder', 'anchor: %s' % e)
            runs = d.run_all((H, B), whole=True)
            for mode in (H, B): yield decoder_name(d, mode), runs[mode], d.n, (d, mode, runs)
        yield from guarded(ck, 'decoder' + (' at the end of input' if eof else ''), dec)
    for ty in sorted(set(wire_types(ck, 'Readable').values())):
        for endian in ENDIANS:
            n = '%s %s' % (tname(ck, ty), endian)
            def rd():
                seq, m = c_sets.input_bytes(ck)
                yield n, decode(ck, ty, seq, endian, State(), raw=True), m, None
                if ck.tier == 'thorough' or endian == 'LittleEndian':
                    try: outs = decode(ck, ty, seq, endian, State())
                    except Anchor: return
                    yield n + ' from a buffer', outs, m, None
            yield from guarded(ck, n, rd)

def decoder_name(d, mode): return 'decoder, %s%s' % ('end of input, ' if d.eof else '', mode)

def guarded(ck, name, gen):
    try: yield from gen()
    except Undecided as e: ck.undecided(name, str(e))
    except Anchor as e: ck.undecided(name, 'anchor: %s' % e)
    except (RecursionError, AttributeError, IndexError, KeyError, TypeError, ValueError) as e:
        if os.environ.get('ABSINT_DEBUG'): raise
        ck.undecided(name, 'analysis: %r' % (e,))

def c01(ck):
    """Every path of decode and decode_eof from both modes on any number of arbitrary bytes, and of the reader of every wire type on any number of arbitrary bytes: none reaches a panic (assertion, arithmetic overflow, index or range outside of the bytes, explicit panic or unimplemented function), and none comes back to the head of a loop with the same state and the same bytes."""
    def what(o): return 'panics: %s' % o.msg if o.kind == 'panic' else 'loops without consuming input'
    open_ = {}
    for name, outs, m, who in every_decode(ck):
        bad = 0
        for o in outs:
            if o.kind in ('panic', 'hang'):
                bad += 1
                if who is not None and who[0].over: open_.setdefault(id(who[0]), (who, []))[1].append((who[1], name, o.st, False, what(o)))
                else: ck.refute(name, o.st, False, what(o), o.msg)
            elif o.kind not in ('ret', 'cut'):
                bad += 1; ck.undecided(name, o.msg)
        if not bad: ck.ok(name, '%d paths' % len(outs))
    for (d, _, runs), cands in open_.values():
        settle(ck, d, cands, lambda m: decoder_name(d, m), lambda o, mode: [(o.st, False, what(o))], lambda m: State(), runs, True)

def sizes_in(ck, s, v, depth=0):
    v = ck.ip.force(v)
    if isinstance(v, SeqV): yield ck.ip.seq_len(v)
    elif isinstance(v, Agg) and depth < 8:
        for x in v.f:
            if x is not absint.UNDEF: yield from sizes_in(ck, s, x, depth + 1)

def c09(ck):
    """Every allocation on every path of decode and decode_eof from both modes on any number of arbitrary bytes, and of the reader of every wire type: its size, and the size of the lists in the value returned, is at most 128 KiB plus 64 times the number of bytes available, for every value of the length and count fields read."""
    for name, outs, m, who in every_decode(ck):
        if who is not None and who[0].over:
            # sizes kept in the extra state are not those of a history
            for o in outs: o.st.imprecise = o.st.imprecise or 'extra state'
        c_sets.allocs_bounded(ck, name, outs, m, name, 64)
        bad = 0
        for o in outs:
            if o.kind != 'ret': continue
            v = o.value[0] if isinstance(o.value, tuple) else o.value
            if v is None: continue
            for n in sizes_in(ck, o.st, v):
                f = f_leq(n, K(c_sets.LIMIT) + scale(m, 64))
                if not o.st.facts.holds(f): bad += 1; ck.refute(name + ' value', o.st, f, 'a list in the value decoded is not bounded by the bytes received', None)
        if not bad: ck.ok(name + ' value', '%d paths' % len(outs))
