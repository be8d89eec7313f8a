"""Checks of the value types: flags, numbers, times, locators, constants."""
from check import *

def imp(*fs):
    """a1 and a2 ... implies b"""
    *a, b = fs
    return f_or(*([f_not(x) for x in a] + [b]))

def ref_arg(ck, st, ty, name):
    return Ref(st.alloc(ck.sym(ty, name)))

# ---------------------------------------------------------------- C15

def c15(ck):
    """Set, clear, test and byte order of the flag octet are analysed for an arbitrary flag octet and an arbitrary mask; every bit of the result is compared with the specified boolean function of the input bits."""
    ip = ck.ip
    def bits(v): 
        b = to_bits(v, 8)
        if b is None: raise Undecided('bits of %s' % v)
        return b
    def mk():
        st = State()
        ty = ck.ty('SubmessageFlag')
        r = st.alloc(ck.sym(ty, 'flag'))
        return st, ty, r, ck.fld(st, ck.sym(ty, 'flag'), ty, 'flags', 'u8')
    mask = sym('mask', 8)
    def upd(name, spec):
        def go():
            st, ty, r, old = mk()
            f = ck.fn('SubmessageFlag::' + name)
            outs = ck.run(f, (Ref(r), mask), st)
            def post(s, v):
                new = ck.fld(s, ip.get(s, r, ()), ty, 'flags', 'u8')
                want = from_bits([spec(a, m) for a, m in zip(bits(old), bits(mask))])
                return f_eq(new, want)
            ck.prove(name, outs, post, msg='%s changes other bits than those of the mask' % name)
        ck.group(name, go)
    upd('set_flag', por)
    upd('clear_flag', lambda a, m: pand(a, pnot(m)))
    def test():
        st, ty, r, old = mk()
        outs = ck.run(ck.fn('SubmessageFlag::is_flag_set'), (Ref(r), mask), st)
        def post(s, v):
            want = f_or(*[bit_formula(pand(a, m)) for a, m in zip(bits(old), bits(mask))])
            same = value_eq(ip, s, ip.get(s, r, ()), ck.sym(ty, 'flag'))
            return [(f_iff(v, want), 'answer differs'), (same, 'flags changed')]
        ck.prove('is_flag_set', outs, post, msg='testing flags')
    ck.group('is_flag_set', test)
    def endian():
        st, ty, r, old = mk()
        outs = ck.run(ck.fn('SubmessageFlag::endianness_flag'), (Ref(r),), st)
        le = ck.variant('Endianness', 'LittleEndian')
        def post(s, v):
            return [(f_iff(ip.variant_of(s, ip.force(v)) == le, bit_formula(bits(old)[0])), 'wrong byte order'),
                    (value_eq(ip, s, ip.get(s, r, ()), ck.sym(ty, 'flag')), 'flags changed')]
        ck.prove('endianness_flag', outs, post, msg='byte order announced by the flags')
    ck.group('endianness_flag', endian)
    def compose():
        # the operations combined, as a user sees them through the public octet
        st, ty, r, old = mk()
        for a, b in (('set_flag', 'clear_flag'), ('clear_flag', 'set_flag')):
            m2 = sym('mask2', 8)
            for o in ck.run(ck.fn('SubmessageFlag::' + a), (Ref(r), mask), st):
                if o.kind != 'ret': continue
                outs = ck.run(ck.fn('SubmessageFlag::' + b), (Ref(r), m2), o.st)
                def post(s, v):
                    new = ck.fld(s, ip.get(s, r, ()), ty, 'flags', 'u8')
                    x = [(por if a[0] == 's' else lambda p, q: pand(p, pnot(q)))(p, q) for p, q in zip(bits(old), bits(mask))]
                    y = [(por if b[0] == 's' else lambda p, q: pand(p, pnot(q)))(p, q) for p, q in zip(x, bits(m2))]
                    return f_eq(new, from_bits(y))
                ck.prove('%s then %s' % (a, b), outs, post, msg='composition of flag operations')
    ck.group('composition', compose)

# ---------------------------------------------------------------- C16

def c16(ck):
    """Checked arithmetic, ordering, equality and integer conversions of both number types are analysed for arbitrary operands; each path has to return exactly the mathematical result, or nothing exactly when it is not representable."""
    ip = ck.ip
    for name, w, signed in (('SequenceNumber_t', 64, True), ('FragmentNumber_t', 32, False)):
        prim = ('i' if signed else 'u') + str(w)
        lo, hi = (-(1 << 63), (1 << 63) - 1) if signed else (0, (1 << 32) - 1)
        ty = ck.ty(name)
        pty = ck.ty(prim)
        a, b = ck.sym(ty, 'a' + str(w)), ck.sym(ty, 'b' + str(w))
        x, y = ck.leaf(a), ck.leaf(b)
        for op in ('Add', 'Sub', 'Mul', 'Div'):
            def go():
                f = ck.fn('<%s as Checked%s>::checked_%s' % (name, op, op.lower()))
                st = State()
                outs = ck.run(f, (Ref(st.alloc(a)), Ref(st.alloc(b))), st)
                def post(s, v):
                    v = ip.force(v)
                    if op == 'Div':
                        defined = f_ne0(y)
                        if signed: defined = f_and(defined, f_not(f_and(f_eq(x, K(lo)), f_eq(y, K(-1)))))
                        if v.v == 0: return [(f_not(defined), 'nothing although the quotient exists')]
                        if not s.assume(defined): return False
                        return [(f_eq(ck.leaf(v.f[0]), ip.binop(s, 'Div', x, y, pty)), 'not the quotient')]
                    z = ip.arith(s, op, x, y, pty)
                    fits = f_and(f_leq(K(lo), z), f_leq(z, K(hi)))
                    if v.v == 0: return [(f_not(fits), 'nothing although the result is representable')]
                    return [(f_and(fits, f_eq(ck.leaf(v.f[0]), z)), 'not the exact result')]
                def guard(s, v):
                    v2 = ip.force(v)
                    if op == 'Div' and v2.v == 1 and not s.facts.holds(f_ne0(y)): return [(f_ne0(y), 'quotient by zero')]
                    return post(s, v)
                ck.prove('%s checked_%s' % (name, op.lower()), outs, guard, msg='checked %s of %s' % (op.lower(), name))
            ck.group('%s checked %s' % (name, op), go)
        # ordering and equality
        def order():
            st = State()
            ra, rb = Ref(st.alloc(a)), Ref(st.alloc(b))
            for tr, m in (('Ord', 'cmp'), ('PartialOrd', 'partial_cmp'), ('PartialEq', 'eq'), ('PartialOrd', 'lt'), ('PartialOrd', 'le'), ('PartialOrd', 'gt'), ('PartialOrd', 'ge'), ('PartialEq', 'ne'), ('Ord', 'max'), ('Ord', 'min')):
                f = ck.fn('<%s as %s>::%s' % (name, tr, m), optional=True)
                if f is None: continue
                byval = m in ('max', 'min')
                outs = ck.run(f, (a, b) if byval else (ra, rb), st)
                def post(s, v):
                    v = ip.force(v)
                    lt, eq = f_lt(x, y), f_eq(x, y)
                    if m in ('cmp', 'partial_cmp'):
                        if m == 'partial_cmp':
                            if ip.variant_of(s, v) == 0: return False
                            v = ip.force(v.f[0])
                        c = ip.variant_of(s, v)
                        return [lt, eq, f_lt(y, x)][c]
                    if m == 'max': return f_and(f_leq(x, ck.leaf(v)), f_leq(y, ck.leaf(v)), f_or(f_eq(ck.leaf(v), x), f_eq(ck.leaf(v), y)))
                    if m == 'min': return f_and(f_leq(ck.leaf(v), x), f_leq(ck.leaf(v), y), f_or(f_eq(ck.leaf(v), x), f_eq(ck.leaf(v), y)))
                    return f_iff(v, {'eq': eq, 'ne': f_not(eq), 'lt': lt, 'le': f_leq(x, y), 'gt': f_lt(y, x), 'ge': f_leq(y, x)}[m])
                ck.prove('%s %s' % (name, m), outs, post, msg='%s of %s is not the numeric one' % (m, name))
        ck.group('%s ordering' % name, order)
        # conversions
        def conv():
            n = A(atom(('s', 'n', prim), w, signed))
            outs = ck.run(ck.fn('<%s as From<%s>>::from' % (name, prim)), (n,))
            ck.prove('%s from %s' % (name, prim), outs, lambda s, v: f_eq(ck.leaf(v), n), msg='conversion of %s from %s' % (name, prim))
            outs = ck.run(ck.fn('<impl From<%s> for %s>::from' % (name, prim)), (a,))
            ck.prove('%s to %s' % (name, prim), outs, lambda s, v: f_eq(ck.leaf(v), x), msg='conversion of %s to %s' % (name, prim))
            for o in ck.run(ck.fn('<%s as From<%s>>::from' % (name, prim)), (n,)):
                if o.kind != 'ret': continue
                outs = ck.run(ck.fn('<impl From<%s> for %s>::from' % (name, prim)), (o.value,), o.st)
                ck.prove('%s round trip %s' % (name, prim), outs, lambda s, v: f_eq(ck.leaf(v), n), msg='conversion of %s to %s and back' % (name, prim))
        ck.group('%s conversions' % name, conv)
        def prims():
            for k in ('i8', 'i16', 'i32', 'i64', 'i128', 'isize', 'u8', 'u16', 'u32', 'u64', 'u128', 'usize'):
                kw = 64 if k.endswith('size') else int(k[1:])
                ks = k[0] == 'i'
                klo, khi = (-(1 << (kw - 1)), (1 << (kw - 1)) - 1) if ks else (0, (1 << kw) - 1)
                f = ck.fn('<impl FromPrimitive for %s>::from_%s' % (name, k), optional=True)
                if f is not None:
                    n = A(atom(('s', 'n', k), kw, ks))
                    outs = ck.run(f, (n,))
                    fits = f_and(f_leq(K(lo), n), f_leq(n, K(hi)))
                    def post(s, v):
                        v = ip.force(v)
                        if ip.variant_of(s, v) == 0: return f_not(fits)
                        return f_and(fits, f_eq(ck.leaf(v.f[0]), n))
                    # 128 bit integers are only converted up to the 64 bit range
                    if kw == 128:
                        l64, h64 = (-(1 << 63), (1 << 63) - 1) if ks else (0, (1 << 64) - 1)
                        in64 = f_and(f_leq(K(l64), n), f_leq(n, K(h64)))
                        post0 = post
                        def post(s, v):
                            if ip.variant_of(s, ip.force(v)) == 0: return f_or(f_not(fits), f_not(in64))
                            return post0(s, v)
                    ck.prove('%s from_%s' % (name, k), outs, post, msg='conversion of %s from %s' % (name, k))
                f = ck.fn('<impl ToPrimitive for %s>::to_%s' % (name, k), optional=True)
                if f is not None:
                    st = State()
                    outs = ck.run(f, (Ref(st.alloc(a)),), st)
                    fits2 = f_and(f_leq(K(klo), x), f_leq(x, K(khi)))
                    def post2(s, v):
                        v = ip.force(v)
                        if ip.variant_of(s, v) == 0: return f_not(fits2)
                        return f_and(fits2, f_eq(ck.leaf(v.f[0]), x))
                    ck.prove('%s to_%s' % (name, k), outs, post2, msg='conversion of %s to %s' % (name, k))
        ck.group('%s primitive conversions' % name, prims)
        # unchecked operators: the exact result wherever it is representable
        def ops():
            for op in ('Add', 'Sub', 'Mul'):
                f = ck.fn('<%s as %s>::%s' % (name, op, op.lower()), optional=True)
                if f is None: continue
                z = ip.arith(State(), op, x, y, pty)
                outs = ck.run(f, (a, b), None, [f_leq(K(lo), z), f_leq(z, K(hi))])
                ck.prove('%s %s' % (name, op.lower()), outs, lambda s, v: f_eq(ck.leaf(v), z), msg='%s of %s' % (op.lower(), name))
            for op in ('Div', 'Rem'):
                f = ck.fn('<%s as %s>::%s' % (name, op, op.lower()), optional=True)
                if f is None: continue
                facts = [f_ne0(y)]
                if signed: facts.append(f_not(f_and(f_eq(x, K(lo)), f_eq(y, K(-1)))))
                outs = ck.run(f, (a, b), None, facts)
                ck.prove('%s %s' % (name, op.lower()), outs, lambda s, v: f_eq(ck.leaf(v), ip.binop(s, op, x, y, pty)), msg='%s of %s' % (op.lower(), name))
            for k, c in (('Zero', 0), ('One', 1)):
                f = ck.fn('<%s as %s>::%s' % (name, k, k.lower()), optional=True)
                if f is not None: ck.prove('%s %s' % (name, k.lower()), ck.run(f, ()), lambda s, v: f_eq(ck.leaf(v), K(c)), msg='%s of %s' % (k.lower(), name))
                f = ck.fn('<%s as %s>::is_%s' % (name, k, k.lower()), optional=True)
                if f is not None:
                    st = State()
                    ck.prove('%s is_%s' % (name, k.lower()), ck.run(f, (Ref(st.alloc(a)),), st), lambda s, v: f_iff(v, f_eq(x, K(c))), msg='is_%s of %s' % (k.lower(), name))
        ck.group('%s operators' % name, ops)

# ---------------------------------------------------------------- C21, C22

NS = models.NS
TWO32 = 1 << 32

def floor_is(q, num, den):
    """q == floor(num / den)"""
    return f_and(f_leq(scale(q, den), num), f_lt(num, scale(q + ONE, den)))

def c21(ck):
    """Both timestamp conversions are analysed for an arbitrary system time (any 64-bit second count before or after the epoch, any nanosecond) and an arbitrary timestamp; every path has to end in the exactly scaled value, or in the invalid value or error exactly where specified, without panicking."""
    ip = ck.ip
    ty = ck.ty('Time_t')
    def fields(s, v): return ck.fld(s, v, ty, 'seconds', 'i32'), ck.fld(s, v, ty, 'fraction', 'u32')
    def from_sys():
        t = ck.sym('SystemTime', 't')
        sec, nan = ip.force(t).d
        f = ck.fn('<Time_t as From<SystemTime>>::from')
        outs = ck.run(f, (t,))
        def post(s, v):
            a, b = fields(s, v)
            rep = f_and(f_leq(ZERO, sec), f_leq(sec, K((1 << 31) - 1)))
            if s.decide(rep):
                return [(f_eq(a, sec), 'seconds differ'), (floor_is(b, scale(nan, TWO32), NS), 'fraction differs')]
            return [(f_and(f_eq(a, K(-1)), f_eq(b, K(TWO32 - 1))), 'not the invalid timestamp for an instant out of range')]
        ck.prove('timestamp from system time', outs, post, msg='timestamp of a system time')
    ck.group('from system time', from_sys)
    def to_sys():
        t = ck.sym(ty, 'ts')
        f = ck.fn('<impl TryFrom<Time_t> for SystemTime>::try_from')
        outs = ck.run(f, (t,))
        sec, fr = fields(State(), t)
        def post(s, v):
            v = ip.force(v)
            if ip.variant_of(s, v) == 1:
                return [(f_lt(sec, ZERO), 'error for a representable instant')]
            a, b = models.as_systime(ip, v.f[0])
            inv = f_and(f_eq(sec, K(-1)), f_eq(fr, K(TWO32 - 1)))
            return [(f_not(inv), 'the invalid timestamp is converted'), (f_eq(a, sec), 'seconds differ'), (floor_is(b, scale(fr, NS), TWO32), 'nanoseconds differ')]
        ck.prove('system time from timestamp', outs, post, msg='system time of a timestamp')
    ck.group('to system time', to_sys)
    def there_and_back():
        t = ck.sym('SystemTime', 't')
        sec, nan = ip.force(t).d
        f = ck.fn('<Time_t as From<SystemTime>>::from')
        g = ck.fn('<impl TryFrom<Time_t> for SystemTime>::try_from')
        for o in ck.run(f, (t,), None, [f_leq(ZERO, sec), f_leq(sec, K((1 << 31) - 1))]):
            if o.kind != 'ret': continue
            outs = ck.run(g, (o.value,), o.st)
            def post(s, v):
                v = ip.force(v)
                if ip.variant_of(s, v) == 1: return [(False, 'error for a representable instant')]
                a, b = models.as_systime(ip, v.f[0])
                return [(f_eq(a, sec), 'seconds differ'), (f_and(f_leq(b, nan), f_leq(nan - b, ONE)), 'off by more than one nanosecond')]
            ck.prove('system time to timestamp and back', outs, post, msg='system time to timestamp and back')
    ck.group('round trip', there_and_back)

def c22(ck):
    """Both duration conversions and their composition are analysed for an arbitrary duration (any 64-bit second count) and an arbitrary protocol duration."""
    ip = ck.ip
    ty = ck.ty('Duration_t')
    def fields(s, v): return ck.fld(s, v, ty, 'seconds', 'i32'), ck.fld(s, v, ty, 'fraction', 'u32')
    f = ck.fn('<Duration_t as From<Duration>>::from')
    g = ck.fn('<impl From<Duration_t> for Duration>::from')
    d = ck.sym('Duration', 'd')
    sec, nan = ip.force(d).d
    big = f_lt(K((1 << 31) - 1), sec)
    def to_wire():
        def post(s, v):
            a, b = fields(s, v)
            if s.decide(big):
                return [(f_and(f_eq(a, K((1 << 31) - 1)), f_eq(b, K(TWO32 - 1))), 'a duration too long is not infinite')]
            return [(f_eq(a, sec), 'seconds differ')]
        ck.prove('protocol form of a duration', ck.run(f, (d,)), post, msg='protocol form of a duration')
        def unit(s, v):
            a, b = fields(s, v)
            # rounding either way is accepted
            return f_or(big, f_and(f_lt(scale(b - ONE, NS), scale(nan, TWO32)), f_lt(scale(nan, TWO32), scale(b + ONE, NS))))
        ck.prove('fraction unit', ck.run(f, (d,)), unit, msg='the fraction is not in units of 2^-32 s')
    ck.group('protocol form', to_wire)
    def from_wire():
        w = ck.sym(ty, 'w')
        ws, wf = fields(State(), w)
        def post(s, v):
            a, b = models.as_dur(ip, v)
            if s.decide(f_lt(ws, ZERO)): return [(f_and(f_eq0(a), f_eq0(b)), 'a negative duration does not become zero')]
            # seconds grow at most by what the fraction can hold
            return [(f_and(f_leq(ws, a), f_leq(a, ws + K(4))), 'seconds differ')]
        ck.prove('duration of the protocol form', ck.run(g, (w,)), post, msg='duration of the protocol form')
        def unit(s, v):
            a, b = models.as_dur(ip, v)
            if s.decide(f_lt(ws, ZERO)): return True
            return f_and(f_eq(a, ws), f_or(floor_is(b, scale(wf, NS), TWO32), floor_is(b - ONE, scale(wf, NS), TWO32)))
        ck.prove('fraction unit back', ck.run(g, (w,)), unit, msg='the fraction is not taken in units of 2^-32 s')
    ck.group('standard form', from_wire)
    def back():
        for o in ck.run(f, (d,)):
            if o.kind != 'ret': continue
            outs = ck.run(g, (o.value,), o.st)
            def post(s, v):
                a, b = models.as_dur(ip, v)
                if s.decide(big): return True
                return [(f_and(f_eq(a, sec), f_eq(b, nan)), 'differs')]
            ck.prove('duration to protocol form and back', outs, post, msg='duration to protocol form and back')
    ck.group('round trip', back)

# ---------------------------------------------------------------- C23

def sock_parts(ck, s, v):
    """(is_v4, octets, port) of a SocketAddr value"""
    ip = ck.ip
    ty = ck.ty('SocketAddr')
    v = ip.force(v)
    k = ip.variant_of(s, v)
    name = ck.p.T[ty]['variants'][k]['name']
    inner = ip.force(ip.step_in(s, v, ('v', k, 0)))
    ity = ck.p.T[ty]['variants'][k]['fields'][0][1]
    return (name == 'V4',) + inet_parts(ck, s, inner, ity)
def inet_parts(ck, s, inner, ity):
    ip = ck.ip
    addr = ck.fld(s, inner, ity, 'ip')
    port = ck.leaf(ck.fld(s, inner, ity, 'port'))
    aty = ck.fty(ity, 'ip')
    oct_ = ip.to_seq(ck.fld(s, addr, aty, 'octets'))
    n = ip.seq_len(oct_).c
    return [ip.force(ip.seq_get(s, oct_, K(i))) for i in range(n)], port

def c23(ck):
    """All address conversions and their compositions are analysed for arbitrary socket addresses and arbitrary locators of every kind."""
    ip = ck.ip
    loc = ck.ty('Locator_t'); kind = ck.ty('LocatorKind_t'); sa = ck.ty('SocketAddr')
    to_loc = ck.fn('<Locator_t as From<SocketAddr>>::from')
    to_sock = ck.fn('<impl From<Locator_t> for SocketAddr>::from')
    INV, V4, V6 = (ck.variant(kind, n) for n in ('LOCATOR_KIND_INVALID', 'LOCATOR_KIND_UDPv4', 'LOCATOR_KIND_UDPv6'))
    a = ck.sym(sa, 'addr')
    def unspec(o): return f_and(*[f_eq0(x) for x in o])
    def eqs(x, y): return f_and(*[f_eq(p, q) for p, q in zip(x, y)]) if len(x) == len(y) else False
    def is_unspec(s, v):
        v4, o, p = sock_parts(ck, s, v)
        return f_and(unspec(o), f_eq0(p))
    def kinds():
        def post(s, v):
            v4, o, p = sock_parts(ck, s, a)
            k = ip.variant_of(s, ck.fld(s, v, loc, 'kind'))
            if s.decide(unspec(o)): return [(k == INV, 'an unspecified address does not give an invalid kind')]
            return [(k == (V4 if v4 else V6), 'kind of a specified address')]
        ck.prove('kind of a socket address', ck.run(to_loc, (a,)), post, msg='locator of a socket address')
    ck.group('locator kind', kinds)
    def back():
        for o in ck.run(to_loc, (a,)):
            if o.kind != 'ret': continue
            outs = ck.run(to_sock, (o.value,), o.st)
            def post(s, v):
                v4, oc, p = sock_parts(ck, s, a)
                if s.decide(unspec(oc)): return [(is_unspec(s, v), 'the unspecified address becomes another endpoint')]
                w4, od, q = sock_parts(ck, s, v)
                return [(w4 == v4, 'address family'), (eqs(oc, od), 'address octets'), (f_eq(p, q), 'port')]
            ck.prove('socket address to locator and back', outs, post, msg='socket address to locator and back')
    ck.group('round trip', back)
    def sock():
        l = ck.sym(loc, 'loc')
        def post(s, v):
            k = ip.variant_of(s, ck.fld(s, l, loc, 'kind'))
            port = ck.fld(s, l, loc, 'port')
            ad = ip.to_seq(ck.fld(s, l, loc, 'address'))
            ad = [ip.force(ip.seq_get(s, ad, K(i))) for i in range(16)]
            if k not in (V4, V6) or s.decide(f_lt(K(65535), port)):
                return [(is_unspec(s, v), 'a locator that is no UDP endpoint becomes an endpoint')]
            w4, o, q = sock_parts(ck, s, v)
            return [(w4 == (k == V4), 'address family'), (eqs(o, ad[12:] if k == V4 else ad), 'address octets'), (f_eq(q, port), 'port')]
        ck.prove('socket address of a locator', ck.run(to_sock, (l,)), post, msg='socket address of a locator')
    ck.group('socket address of a locator', sock)
    def compact():
        cty = ck.ty('LocatorUDPv4_t')
        sv4 = ck.ty('SocketAddrV4')
        f = ck.fn('<LocatorUDPv4_t as From<SocketAddrV4>>::from')
        g = ck.fn('<impl From<LocatorUDPv4_t> for SocketAddrV4>::from')
        h = ck.fn('<Locator_t as From<LocatorUDPv4_t>>::from')
        b = ck.sym(sv4, 'addr4')
        for o in ck.run(f, (b,)):
            if o.kind != 'ret':
                ck.prove('compact locator of an address', [o], lambda s, v: True); continue
            outs = ck.run(g, (o.value,), o.st)
            def post(s, v):
                oc, p = inet_parts(ck, s, b, sv4)
                od, q = inet_parts(ck, s, v, sv4)
                return [(eqs(oc, od), 'address octets'), (f_eq(p, q), 'port')]
            ck.prove('address to compact locator and back', outs, post, msg='address to compact locator and back')
        c = ck.sym(cty, 'compact')
        def cf(s): return ck.fld(s, c, cty, 'address'), ck.fld(s, c, cty, 'port')
        def octs(x):
            bs = to_bits(x, 32)
            return [from_bits(bs[i:i + 8]) for i in (24, 16, 8, 0)]
        def post(s, v):
            x, port = cf(s)
            o, q = inet_parts(ck, s, v, sv4)
            if s.decide(f_lt(K(65535), port)): return [(f_and(unspec(o), f_eq0(q)), 'port out of range becomes an endpoint')]
            return [(eqs(o, octs(x)), 'address octets'), (f_eq(q, port), 'port')]
        ck.prove('address of a compact locator', ck.run(g, (c,)), post, msg='address of a compact locator')
        def post2(s, v):
            x, port = cf(s)
            k = ip.variant_of(s, ck.fld(s, v, loc, 'kind'))
            lp = ck.fld(s, v, loc, 'port')
            ad = ip.to_seq(ck.fld(s, v, loc, 'address'))
            ad = [ip.force(ip.seq_get(s, ad, K(i))) for i in range(16)]
            if s.decide(f_or(f_lt(K(65535), port), f_eq0(x))): return [(k == INV, 'no invalid kind for a compact locator that is no endpoint')]
            return [(k == V4, 'kind'), (f_eq(lp, port), 'port'), (eqs(ad[12:], octs(x)), 'address octets')]
        ck.prove('locator of a compact locator', ck.run(h, (c,)), post2, msg='locator of a compact locator')
        for o in ck.run(h, (c,)):
            if o.kind != 'ret': continue
            outs = ck.run(to_sock, (o.value,), o.st)
            def post3(s, v):
                x, port = cf(s)
                if s.decide(f_or(f_lt(K(65535), port), f_eq0(x))): return [(is_unspec(s, v), 'becomes another endpoint')]
                w4, od, q = sock_parts(ck, s, v)
                return [(w4, 'address family'), (eqs(od, octs(x)) if w4 else True, 'address octets'), (f_eq(q, port), 'port')]
            ck.prove('compact locator to locator to address', outs, post3, msg='compact locator to locator to address')
    ck.group('compact locator', compact)

# ---------------------------------------------------------------- C24

PIDS = {'PAD': 0, 'SENTINEL': 1, 'USER_DATA': 0x2c, 'TOPIC_NAME': 5, 'TYPE_NAME': 7, 'GROUP_DATA': 0x2d, 'TOPIC_DATA': 0x2e, 'DURABILITY': 0x1d,
    'DURABILITY_SERVICE': 0x1e, 'DEADLINE': 0x23, 'LATENCY_BUDGET': 0x27, 'LIVELINESS': 0x1b, 'RELIABILITY': 0x1a, 'LIFESPAN': 0x2b,
    'DESTINATION_ORDER': 0x25, 'HISTORY': 0x40, 'RESOURCE_LIMITS': 0x41, 'OWNERSHIP': 0x1f, 'OWNERSHIP_STRENGTH': 6, 'PRESENTATION': 0x21,
    'PARTITION': 0x29, 'TIME_BASED_FILTER': 4, 'TRANSPORT_PRIO': 0x49, 'PROTOCOL_VERSION': 0x15, 'VENDOR_ID': 0x16, 'UNICAST_LOCATOR': 0x2f,
    'MULTICAST_LOCATOR': 0x30, 'MULTICAST_IPADDRESS': 0x11, 'DEFAULT_UNICAST_LOCATOR': 0x31, 'DEFAULT_MULTICAST_LOCATOR': 0x48,
    'METATRAFFIC_UNICAST_LOCATOR': 0x32, 'METATRAFFIC_MULTICAST_LOCATOR': 0x33, 'DEFAULT_UNICAST_IPADDRESS': 0x0c, 'DEFAULT_UNICAST_PORT': 0x0e,
    'METATRAFFIC_UNICAST_IPADDRESS': 0x45, 'METATRAFFIC_UNICAST_PORT': 0x0d, 'METATRAFFIC_MULTICAST_IPADDRESS': 0x0b, 'METATRAFFIC_MULTICAST_PORT': 0x46,
    'EXPECTS_INLINE_QOS': 0x43, 'PARTICIPANT_MANUAL_LIVELINESS_COUNT': 0x34, 'PARTICIPANT_BUILTIN_ENDPOINTS': 0x44, 'PARTICIPANT_LEASE_DURATION': 2,
    'CONTENT_FILTER_PROPERTY': 0x35, 'PARTICIPANT_GUID': 0x50, 'GROUP_GUID': 0x52, 'GROUP_ENTITYID': 0x53, 'BUILTIN_ENDPOINT_SET': 0x58,
    'PROPERTY_LIST': 0x59, 'TYPE_MAX_SIZE_SERIALIZED': 0x60, 'ENTITY_NAME': 0x62, 'KEY_HASH': 0x70, 'STATUS_INFO': 0x71}
KINDS = {'PAD': 1, 'ACKNACK': 6, 'HEARTBEAT': 7, 'GAP': 8, 'INFO_TS': 9, 'INFO_SRC': 0x0c, 'INFO_REPLAY_IP4': 0x0d, 'INFO_DST': 0x0e, 'INFO_REPLAY': 0x0f,
    'NACK_FRAG': 0x12, 'HEARTBEAT_FRAG': 0x13, 'DATA': 0x15, 'DATA_FRAG': 0x16}
ENTITY = {'UNKNOWN': (0, 0, 0, 0), 'PARTICIPANT': (0, 0, 1, 0xc1), 'SEDP_BUILTIN_TOPIC_WRITER': (0, 0, 2, 0xc2), 'SEDP_BUILTIN_TOPIC_READER': (0, 0, 2, 0xc7),
    'SEDP_BUILTIN_PUBLICATIONS_WRITER': (0, 0, 3, 0xc2), 'SEDP_BUILTIN_PUBLICATIONS_READER': (0, 0, 3, 0xc7),
    'SEDP_BUILTIN_SUBSCRIPTIONS_WRITER': (0, 0, 4, 0xc2), 'SEDP_BUILTIN_SUBSCRIPTIONS_READER': (0, 0, 4, 0xc7),
    'SPDP_BUILTIN_PARTICIPANT_WRITER': (0, 1, 0, 0xc2), 'SPDP_BUILTIN_PARTICIPANT_READER': (0, 1, 0, 0xc7),
    'P2P_BUILTIN_PARTICIPANT_MESSAGE_WRITER': (0, 2, 0, 0xc2), 'P2P_BUILTIN_PARTICIPANT_MESSAGE_READER': (0, 2, 0, 0xc7)}
CONSTS = {'PROTOCOL_RTPS': tuple(map(ord, 'RTPS')), 'PROTOCOLVERSION_1_0': (1, 0), 'PROTOCOLVERSION_1_1': (1, 1), 'PROTOCOLVERSION_2_0': (2, 0),
    'PROTOCOLVERSION_2_1': (2, 1), 'PROTOCOLVERSION_2_2': (2, 2), 'PROTOCOLVERSION_2_4': (2, 4), 'PROTOCOLVERSION': (2, 4), 'VENDOR_UNKNOWN': (0, 0),
    'DURATION_ZERO': (0, 0), 'DURATION_INVALID': (-1, TWO32 - 1), 'DURATION_INFINITE': ((1 << 31) - 1, TWO32 - 1),
    'TIME_ZERO': (0, 0), 'TIME_INVALID': (-1, TWO32 - 1), 'TIME_INFINITE': ((1 << 31) - 1, TWO32 - 1),
    'GUID_UNKNOWN': (0,) * 16, 'GUIDPREFIX_UNKNOWN': (0,) * 12, 'LOCATOR_ADDRESS_INVALID': (0,) * 16, 'LOCATOR_PORT_INVALID': (0,),
    'LOCATORUDPv4_INVALID': (0, 0), 'BEST_EFFORT': (1,), 'RELIABLE': (2,), 'SEQUENCENUMBER_UNKNOWN': (-TWO32,)}
ENUMS = {'LocatorKind_t': {'LOCATOR_KIND_INVALID': 0xffffffff, 'LOCATOR_KIND_RESERVED': 0, 'LOCATOR_KIND_UDPv4': 1, 'LOCATOR_KIND_UDPv6': 2},
    'TopicKind_t': {'NO_KEY': 1, 'WITH_KEY': 2}}

def flat(ck, v):
    v = ck.ip.force(v)
    if isinstance(v, Lin):
        if v.t: raise Undecided('not constant')
        return (v.c,)
    if isinstance(v, Agg):
        out = ()
        for x in v.f: out += flat(ck, x)
        return out
    raise Undecided('constant %r' % (v,))

def c24(ck):
    """The compiler's evaluation of every named protocol constant and every enumeration discriminant is compared with a table transcribed from the RTPS specification; constants of one family are pairwise distinct."""
    def one(name, want, family):
        def go():
            c = [c for c in ck.p.d['consts'] if norm(c['name']).rsplit('::', 1)[-1] == name]
            if not c: raise Anchor('constant %s not found' % name)
            for x in c:
                got = flat(ck, ck.p.decode(x['ty'], x['v']))
                ob = 'constant %s' % short(norm(x['name']))
                if got == tuple(want): ck.ok(ob)
                else: ck.violation(ob, 'has the value %s, specified is %s' % (fmt(got), fmt(want)), ck.p.span(x['span']))
                fams.setdefault(family or name, {})[name] = got
        ck.group(name, go)
    fams = {}
    for n, v in PIDS.items(): one('PID_' + n, (v,), 'parameter identifiers')
    for n, v in ENTITY.items(): one('ENTITYID_' + n, v, 'entity identifiers')
    def kind_consts():
        ty = ck.ty('SubmessageKind')
        for n, v in KINDS.items():
            c = [c for c in ck.p.d['consts'] if short(norm(c['name'])) == 'SubmessageKind::' + n]
            if not c: raise Anchor('submessage kind %s not found' % n)
            got = flat(ck, ck.p.decode(c[0]['ty'], c[0]['v']))
            if got == (v,): ck.ok('submessage kind ' + n)
            else: ck.violation('submessage kind ' + n, 'has the value %s, specified is %#x' % (fmt(got), v), ck.p.span(c[0]['span']))
            fams.setdefault('submessage kinds', {})[n] = got
    ck.group('submessage kinds', kind_consts)
    for n, v in CONSTS.items():
        one(n, v, n.split('_')[0] if n.startswith(('DURATION', 'TIME')) else 'reliability kinds' if n in ('BEST_EFFORT', 'RELIABLE') else None)
    for e, vs in ENUMS.items():
        def en():
            ty = ck.ty(e)
            t = ck.p.T[ty]
            got = {v['name']: int(v['discr']) & 0xffffffff for v in t['variants']}
            for n, v in vs.items():
                if n not in got: raise Anchor('%s::%s not found' % (e, n))
                if got[n] == v: ck.ok('%s::%s' % (e, n))
                else: ck.violation('%s::%s' % (e, n), 'has the value %#x, specified is %#x' % (got[n], v))
            # the encoder and decoder use the same numbers
            wire_enum(ck, e, ty, vs)
        ck.group(e, en)
    def defaults():
        for name, want in (('EntityId_t', (0,) * 4), ('GuidPrefix_t', (0,) * 12), ('VendorId_t', (0, 0)), ('ProtocolVersion_t', (2, 4)), ('ProtocolId_t', tuple(map(ord, 'RTPS')))):
            f = ck.fn('<%s as Default>::default' % name)
            ck.prove('default %s' % name, ck.run(f, ()), lambda s, v: flat(ck, v) == want, msg='default of %s' % name)
    ck.group('defaults', defaults)
    for fam, m in fams.items():
        seen = {}
        bad = False
        for n, v in m.items():
            if v in seen:
                bad = True
                ck.violation('family ' + fam, '%s and %s are both %s' % (seen[v], n, fmt(v)))
            seen[v] = n
        if not bad and len(m) > 1: ck.ok('family ' + fam)

def wire_enum(ck, e, ty, vs):
    f = ck.fn("<%s as Writable<Endianness>>::write_to_vec_with_ctx" % e, optional=True)
    from c_wire import encode
    ip = ck.ip
    for endian in ('LittleEndian', 'BigEndian'):
        for n, v in vs.items():
            val = Agg(ck.variant(ty, n), ())
            outs = encode(ck, ty, val, endian)
            want = [K((v >> (8 * i)) & 255) for i in range(4)]
            if endian == 'BigEndian': want = want[::-1]
            ck.prove('%s::%s %s' % (e, n, endian), outs, lambda s, r: enc_is(ck, s, r, want), msg='encoded number of %s::%s' % (e, n))

def enc_is(ck, s, r, want):
    ip = ck.ip
    if r is None: return [(False, 'encoding fails')]
    return seq_eq(ip, s, r, SeqV((('E', tuple(want)),)))

def fmt(v): return ' '.join('%#x' % x for x in v)
