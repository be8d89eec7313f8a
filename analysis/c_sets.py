"""Minimum sizes, number sets, parameters, memory."""
from check import *
from c_wire import *
from c_wire import is_bitvec, is_bytes
from c_hist import items
import models

def input_bytes(ck, name='input'):
    """(sequence, length): any number of arbitrary bytes"""
    n = A(atom(('s', name + ' length'), 64, False, 0, 1 << 20))
    ck.ip.seq_ty[('s', name)] = ck.ty('u8')
    return SeqV((('S', ('s', name), ck.ty('u8'), ZERO, n),)), n

def byte_list(k, name='byte'):
    return [A(atom(('s', '%s%d' % (name, i)), 8)) for i in range(k)]

def uint(bs, big):
    x = ZERO
    for i, b in enumerate(bs if not big else bs[::-1]): x = x + scale(b, 1 << (8 * i))
    return x

def list_elements(ck):
    """types decoded as elements of a list"""
    out = {}
    for n in ck.names:
        m = re.fullmatch(r"<Vec<(.*)> as Readable<.*>>::read_from::<.*", n)
        if m:
            t = ck.ty(m.group(1), optional=True)
            if t is not None: out[m.group(1)] = t
    return out

def c12(ck):
    """Every wire type that can be read, in both byte orders: reading without the test of the announced minimum from a window of any smaller size never yields a value; the announced minimum of types that occur as list elements is at least one."""
    r = wire_types(ck, 'Readable')
    elems = list_elements(ck)
    ip = ck.ip
    for n in sorted(set(r) | set(elems)):
        ty = r.get(n, elems.get(n))
        def go():
            for o in minimum(ck, ty):
                if o.kind != 'ret':
                    ck.prove(n + ' minimum', [o], lambda s, v: True, msg='minimum of %s' % n); continue
                if n in elems: ck.prove(n + ' as list element', [o], lambda s, v: [(f_leq(K(1), v), 'the announced minimum of a list element is zero')], msg=n)
                if n not in r: continue
                if not o.value.t and o.value.c <= 0:
                    ck.ok(n + ' minimum'); continue
                for endian in ENDIANS:
                    seq, m = input_bytes(ck)
                    st = o.st.copy()
                    if not st.assume(f_lt(m, o.value)): continue
                    outs = decode(ck, ty, seq, endian, st, raw=True)
                    # whether reading fails otherwise is another property
                    ck.prove('%s minimum %s' % (n, endian), outs, lambda s, v: [(v[0] is None, 'fewer bytes than the announced minimum are decodable')], panic=lambda o: True, msg='minimum of %s' % n)
        ck.group(n, go)

# ---------------------------------------------------------------- C13

def set_types(ck):
    out = []
    for n in ('RangedBitSet<SequenceNumber_t>', 'RangedBitSet<FragmentNumber_t>'):
        t = ck.ty(n, optional=True)
        if t is not None: out.append((n, t, SET_BASE[n]))
    if not out: raise Anchor('number set type')
    return out

def bit_at(ck, s, w, i):
    b = to_bits(w, 32)
    return bit_formula(b[i]) if b is not None else bit_formula(ck.ip.bits(s, w, 32, False)[i])

def member(ck, s, ws, nb, i):
    """formula: offset i belongs to the bit vector"""
    if i >= nb or i // 32 >= len(ws): return False
    return bit_at(ck, s, ws[i // 32], i % 32)

def iff(a, b):
    return f_and(f_or(f_not(a), b), f_or(a, f_not(b)))

def set_value(ck, ty, k, base=None):
    n = tname(ck, ty)
    def sub(t):
        if is_bitvec(ck)(t): return bitvec(ck, t, words_of(k, 'word'), k)
        if base is not None and t == base[0]: return base[1]
    return build(ck, ty, n, sub)

def c13(ck):
    """Number sets over sequence and fragment numbers. Inserting: for sets of each size with arbitrary members and an arbitrary base, every offset from 0 to 255 and every value below or beyond the range; the result, the membership of the offset and all other members are compared. Iterating: the first and the following elements delivered by a set with arbitrary members. Decoding: every declared bit count, with arbitrary bitmap words."""
    thorough = ck.tier == 'thorough'
    for n, ty, bn in set_types(ck):
        def created():
            f = ck.fn('RangedBitSet::<%s>::new' % bn)
            b = ck.sym(bn, 'base')
            def post(s, v):
                bty, bv = find_in(ck, s, ty, v, is_bitvec(ck))
                ws, nb = bitset_parts(ck, s, bv, bty)
                return [(f_eq(ck.leaf(ck.fld(s, v, ty, 'base', bn)), ck.leaf(b)), 'the base differs'),
                        (f_and(*[f_eq0(w) for w in ws]) if ws else True, 'a new set has members')]
            ck.prove(n + ' new', ck.run(f, (b,)), post, msg='new set')
        ck.group(n + ' new', created)
        # offsets up to 127 grow the set by repeated doubling; sizes around the word boundaries
        sizes = (0, 1, 32, 33, 64, 97, 160, 255, 256) if thorough else (0, 33, 256)
        for k in sizes:
            ck.group('%s insert %d' % (n, k), lambda: insert(ck, n, ty, bn, k))
        ck.group(n + ' iterate', lambda: iterate(ck, n, ty, bn, thorough))
        ck.group(n + ' decode', lambda: set_decode(ck, n, ty, bn, thorough))

def insert(ck, n, ty, bn, k):
    ip = ck.ip
    f = ck.fn('RangedBitSet::<%s>::insert' % bn)
    bty = ck.ty(bn)
    base = ck.sym(bn, 'base')
    b = ck.leaf(base)
    val = set_value(ck, ty, k)
    wide = 32 if bn.startswith('Fragment') else 64
    signed = wide == 64
    hi = (1 << (wide - 1)) - 1 if signed else (1 << wide) - 1
    def start():
        st = State()
        v = ip.force(val)
        i = ck.findex(ty, 'base', alt=bn)
        v = Agg(v.v, v.f[:i] + (base,) + v.f[i + 1:])
        return st, st.alloc(v), v
    def wrap(x):
        v = x
        t = bty
        chain = []
        while ck.p.T[t]['k'] == 'struct':
            chain.append(t); t = ck.p.T[t]['variants'][0]['fields'][0][1]
        for _ in chain: v = Agg(0, (v,))
        return v
    def run(name, arg, facts, offset):
        st, r, before = start()
        for g in facts:
            if not st.assume(g): return
        bt0, bv0 = find_in(ck, st, ty, before, is_bitvec(ck))
        ws0, nb0 = bitset_parts(ck, st, bv0, bt0)
        def post(s, v):
            after = s.mem[r]
            bt, bv = find_in(ck, s, ty, after, is_bitvec(ck))
            ws, nb = bitset_parts(ck, s, bv, bt)
            out = [(f_eq(ck.leaf(ck.fld(s, after, ty, 'base', bn)), b), 'the base changes')]
            if offset is None:
                out.append((f_not(v), 'a number outside of the range is reported as new'))
                eq = equal(ck, s, bv0, bv, bt)
                out.append((eq, 'a number outside of the range changes the members'))
            else:
                was = member(ck, s, ws0, nb0, offset)
                out.append((iff(v, f_not(was)), 'the result does not tell whether the number was new'))
                out.append((member(ck, s, ws, nb, offset), 'the number is not a member afterwards'))
                m = max(len(ws), len(ws0))
                x, y = ws0 + [ZERO] * (m - len(ws0)), ws + [ZERO] * (m - len(ws))
                same_ = []
                for j in range(m):
                    if j == offset // 32:
                        for q in range(32):
                            if q != offset % 32: same_.append(iff(bit_at(ck, s, x[j], q), bit_at(ck, s, y[j], q)))
                    else: same_.append(f_eq(x[j], y[j]))
                # members lie below the length of the vector
                lim = [f_leq(w, K((1 << max(0, min(32, nb - 32 * i))) - 1)) for i, w in enumerate(ws)]
                out.append((f_and(*(same_ + lim)), 'another member appears or disappears'))
            return out
        ck.prove(name, ck.run(f, (Ref(r), arg), st), post, msg='insert into a set of %d bits' % k)
    offs = range(256) if ck.tier == 'thorough' or k == 33 else sorted(set([0, 1, 7, 31, 32, 63, 64, 95, 127, 128, 200, 254, 255] + [max(0, min(255, k + d)) for d in (-1, 0, 1)]))
    for d in offs:
        run('%s insert within range' % n, wrap(b + K(d)), [f_leq(b + K(d), K(hi))], d)
    x = ck.leaf(ck.sym(bn, 'value'))
    run('%s insert below range' % n, wrap(x), [f_lt(x, b)], None)
    run('%s insert beyond range' % n, wrap(x), [f_lt(b + K(255), x)], None)
    for d in (256, 257, 300, 1000):
        run('%s insert beyond range by %d' % (n, d - 255), wrap(b + K(d)), [f_leq(b + K(d), K(hi))], None)

def iterate(ck, n, ty, bn, thorough):
    ip = ck.ip
    f = ck.fn('<RangedBitSet<%s> as IntoIterator>::into_iter' % bn)
    g = ck.fn('<RangedBitSetIntoIter<%s> as Iterator>::next' % bn)
    hi = (1 << 63) - 1 if bn.startswith('Seq') else (1 << 32) - 1
    for k in ((0, 1, 2, 31, 32, 33, 40, 64, 100, 256) if thorough else (0, 1, 5, 33, 256)):
        val = set_value(ck, ty, k)
        words = words_of(k, 'word')
        b = ck.leaf(ck.fld(State(), val, ty, 'base', bn))
        bits = [bit_at(ck, State(), words[j // 32], j % 32) for j in range(k)]
        for o in ck.run(f, (val,)):
            if o.kind != 'ret':
                ck.prove('%s iterate' % n, [o], lambda s, v: True, msg='iteration'); continue
            st = o.st.copy()
            it = st.alloc(o.value)
            def step(st, first, depth):
                outs = ck.run(g, (Ref(it),), st)
                nxt = []
                def post(s, v):
                    # offset of the next member: the first set bit from here on
                    j0 = first
                    if ip.variant_of(s, ip.force(v)) == 1:
                        d = ck.leaf(ip.step_in(s, ip.force(v), ('v', 1, 0))) - b
                        if not d.t and first <= d.c < k and s.facts.holds(f_and(*[f_not(x) for x in bits[first:d.c]]) if d.c > first else True): j0 = d.c
                    elif s.facts.holds(f_and(*[f_not(x) for x in bits[first:]]) if k > first else True): return True
                    if j0 == first:
                        known = set(s.facts.conj())
                        for j in range(first, k):
                            if bits[j] in known:
                                if s.facts.holds(f_and(*[f_not(x) for x in bits[first:j]]) if j > first else True): j0 = j
                                break
                    for j in range(j0, k):
                        if s.decide(bits[j]):
                            fits = f_leq(b + K(j), K(hi))
                            if ip.variant_of(s, ip.force(v)) == 0: return [(f_not(fits), 'a member is not delivered')]
                            got = ck.leaf(ip.step_in(s, ip.force(v), ('v', 1, 0)))
                            if len(nxt) < 400: nxt.append((s, j, True))
                            return [(f_and(fits, f_eq(got, b + K(j))), 'the number delivered is not the next member')]
                    return [(ip.variant_of(s, ip.force(v)) == 0, 'a number is delivered that is not a member')]
                ck.prove('%s iterate' % n, outs, post, msg='iteration over a set of %d bits' % k)
                if depth > 1:
                    for s, j, _ in nxt[::max(1, len(nxt) // 12)]: step(s, j + 1, depth - 1)
            step(st, 0, 3 if k <= 40 else 1)

def set_decode(ck, n, ty, bn, thorough):
    ip = ck.ip
    bw = 8 if bn.startswith('Seq') else 4
    for endian in ENDIANS:
        big = endian == 'BigEndian'
        head = byte_list(bw, 'base')
        # declared bit counts above 256, with any bytes behind
        seq, m = input_bytes(ck)
        cb = byte_list(4, 'count')
        st = State()
        cnt = uint(cb, big)
        if st.assume(f_lt(K(256), cnt)):
            outs = decode(ck, ty, SeqV((('E', tuple(head + cb)),) + seq.segs), endian, st)
            ck.prove('%s oversized' % n, outs, lambda s, v: [(v[0] is None, 'a set of more than 256 bits is accepted')], msg='declared bit count above 256')
        counts = range(257) if thorough else (0, 1, 2, 7, 31, 32, 33, 63, 64, 65, 100, 128, 129, 191, 193, 224, 225, 255, 256)
        good = {False: [], True: []}
        runs = []
        for k in counts:
            w = [A(atom(('s', 'bitmap%d' % i), 32)) for i in range((k + 31) // 32)]
            bs = head + int_bytes(K(k), 4, big)
            for x in w: bs = bs + int_bytes(x, 4, big)
            outs = decode(ck, ty, SeqV((('E', tuple(bs)),)), endian)
            def post(msb):
                def p(s, v):
                    if v[0] is None: return [(False, 'a set within the limit is rejected')]
                    bt, bv = find_in(ck, s, ty, v[0], is_bitvec(ck))
                    ws, nb = bitset_parts(ck, s, bv, bt)
                    fs = []
                    for i in range(max(k, nb)):
                        want = False
                        if i < k: want = bit_at(ck, s, w[i // 32], 31 - i % 32 if msb else i % 32)
                        fs.append(iff(member(ck, s, ws, nb, i), want))
                    lim = [f_leq(x, K((1 << max(0, min(32, nb - 32 * i))) - 1)) for i, x in enumerate(ws)]
                    return [(f_and(*(fs + lim)) if fs or lim else True, 'the members are not the bits set within the declared count')]
                return p
            runs.append((k, outs, post))
        # offsets may be stored from either end of the words (the order is another property), but in one way
        def shown(msb): return all(o.kind == 'ret' and all(o.st.facts.holds(x) for s, fs in ck.cases(o.st, lambda s: post(msb)(s, o.value)) for x, _ in fs) for k, outs, post in runs for o in outs)
        msb = not shown(False) and shown(True)
        for k, outs, post in runs:
            ck.prove('%s decode' % n, outs, post(msb), msg='decoding a set of %d bits' % k)

# ---------------------------------------------------------------- C14

def c14(ck):
    """Parameters with a value of any length: the bytes written are compared, at the head and at an arbitrary position, with identifier, rounded length, value and zero padding; values whose rounded length exceeds 16 bits are rejected. Decoding from any number of arbitrary bytes: the identifier, the number of bytes consumed and the value at an arbitrary position, and that the only inputs rejected are those with fewer bytes than declared."""
    ip = ck.ip
    ty = ck.ty('Parameter')
    def writing():
        for endian in ENDIANS:
            big = endian == 'BigEndian'
            for text, val in variants_of(ck, ty, ck.tier == 'thorough'):
                def post(s, v):
                    bt, bv = find_in(ck, s, ty, val, is_bytes(ck))
                    seq = ip.to_seq(bv)
                    long = f_leq(K(65533), ip.seq_len(seq))
                    if v is None: return [(long, 'a value that fits is rejected')]
                    if s.decide(long): return [(False, 'a value that does not fit is written')]
                    return [(eq_bytes(ck, s, v, spec_bytes(ck, s, ty, val, big)), 'the bytes differ from identifier, length, value and padding')]
                ck.prove('written %s %s' % (endian, text), encode(ck, ty, val, endian), post, msg='encoded parameter')
    ck.group('written', writing)
    def reading():
        for endian in ENDIANS:
            big = endian == 'BigEndian'
            read_case(ck, ty, endian, big, None)
            for k in (range(0, 66) if ck.tier == 'thorough' else (0, 1, 2, 3, 4, 5, 6, 7, 8, 17)): read_case(ck, ty, endian, big, k)
    ck.group('read', reading)

def read_case(ck, ty, endian, big, k):
    ip = ck.ip
    pid = byte_list(2, 'id')
    rest, m = input_bytes(ck, 'rest')
    if k is None:
        ln = A(atom(('s', 'declared length'), 16))
        lb = int_bytes(ln, 2, big)
    else:
        ln = K(k); lb = int_bytes(ln, 2, big)
    seq = SeqV((('E', tuple(pid + lb)),) + rest.segs)
    outs = decode(ck, ty, seq, endian, State())
    def post(s, v):
        pad = (-(ip.concrete(s, ip.binop(s, 'Rem', ln, K(4), ck.p.usize, None), 4) if ln.t else k)) % 4
        want = ln + K(pad)
        fits = f_leq(want, m)
        if v[0] is None: return [(f_not(fits), 'a complete parameter is rejected')]
        val = ip.to_seq(ip.force(ck.fld(s, v[0], ty, 'value', 'Vec<u8>')))
        out = [(fits, 'a truncated parameter is accepted'),
               (f_eq(v[1], want + K(4)), 'the bytes consumed are not the declared length rounded up'),
               (f_eq(ck.leaf(ck.fld(s, v[0], ty, 'parameter_id', 'ParameterId')), uint(pid, big)), 'another identifier')]
        vl = ip.seq_len(val)
        # padding may be kept as part of the value or dropped
        if s.decide(f_eq(vl, want)): n_ = want
        else: return out + [(False, 'the value does not have the declared length rounded up')]
        out.append((copied(ck, s, val, rest, n_), 'another value'))
        return out
    ck.prove('read %s %s' % (endian, 'any length' if k is None else 'length %d' % k), outs, post, msg='decoded parameter')

def copied(ck, s, got, src, n):
    """formula: got consists of the first n elements of src"""
    ip = ck.ip
    base = ZERO
    out = []
    for g in got.segs:
        if g[0] == 'E' and not base.t:
            for i, x in enumerate(g[1]): out.append(f_eq(x, ip.seq_get(s, src, base + K(i))))
        elif g[0] == 'S' and len(src.segs) == 1 and src.segs[0][0] == 'S' and g[1] == src.segs[0][1] and s.facts.holds(f_eq(g[3], src.segs[0][3] + base)): pass
        else:
            j = A(atom(('s', 'position'), 64))
            if s.decide(f_lt(j, n)): return f_eq(ip.seq_get(s, got, j), ip.seq_get(s, src, j))
            return True
        base = base + ip.seg_len(g)
    return f_and(*out) if out else True

# ---------------------------------------------------------------- C09 (wire types)

LIMIT = 131072

def allocs_bounded(ck, name, outs, avail, what, factor=16):
    """every allocation of every path is at most a constant plus a factor of the bytes available"""
    tot = {}
    good = True
    for o in outs:
        if o.kind == 'undecided':
            good = False; ck.undecided(name, o.msg); continue
        for e in o.st.events:
            if e[0] != 'alloc': continue
            tot[e[2]] = tot.get(e[2], 0) + 1
            bound_ = f_leq(e[1], K(LIMIT) + scale(avail, factor))
            if o.st.facts.holds(bound_): continue
            good = False
            ck.refute(name, o.st, bound_, '%s: an allocation in %s is not bounded by the bytes received' % (what, short(norm(e[2]))), None)
    if good: ck.ok(name, '%d paths, allocations in %s' % (len(outs), ', '.join(short(norm(x)) for x in tot) or 'none'))
