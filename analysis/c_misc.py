"""Equality, ordering, construction and access of the protocol types."""
import re
from check import *
from models import value_eq

def traits(ck, trait, method):
    """(type name, function) for each crate type with the trait method"""
    out = []
    for n, fs in sorted(ck.names.items()):
        m = re.fullmatch(r'<(.*) as %s>::%s' % (trait, method), n)
        if not m: continue
        for f in fs:
            if 'blocks' in f and ck.p.local(f): out.append((m.group(1), f))
    return out

def self_type(ck, f):
    """the type an `&self` method is for"""
    return ck.p.T[f['locals'][1]]['of']

def two(ck, ty, n='ab'):
    st = State()
    # the names of unknowns carry their type: an unknown has one range
    vs = [ck.sym(ty, '%s%d' % (x, ty)) for x in n]
    return st, vs, [Ref(st.alloc(v)) for v in vs]

def c25(ck):
    """For each protocol type the derived or written equality, ordering and copying functions are analysed on arbitrary values; equality must coincide with the equality of all parts, orderings must be antisymmetric and consistent with it and among themselves, times and counters must be ordered by their value, copies must be equal."""
    ip = ck.ip
    for name, f in traits(ck, 'PartialEq', '(?:eq|ne)'):
        def go():
            ty = self_type(ck, f)
            st, (a, b), refs = two(ck, ty)
            outs = ck.run(f, refs, st)
            ne = f['name'].endswith('::ne')
            def post(s, v):
                e = value_eq(ip, s, a, b)
                return f_iff(v, f_not(e) if ne else e)
            ck.prove('%s of %s' % ('inequality' if ne else 'equality', name), outs, post, msg='equality of %s is not the equality of its parts' % name)
        ck.group('equality of %s' % name, go)
    rank = lambda s, v: ip.variant_of(s, v)     # Less, Equal, Greater
    def numeric(s, name, a, b):
        """less-than of types whose order has a meaning"""
        if name in ('Time_t', 'Duration_t', 'ProtocolVersion_t'):
            n1, n2 = {'ProtocolVersion_t': (('major', None), ('minor', None))}.get(name, (('seconds', 'i32'), ('fraction', 'u32')))
            (p, q), (x, y) = [[ck.leaf(ck.fld(s, v, v.ty, *n)) for n in (n1, n2)] for v in (a, b)]
            return f_or(f_lt(p, x), f_and(f_eq(p, x), f_lt(q, y)))
        if name in ('Count_t', 'SequenceNumber_t', 'FragmentNumber_t'):
            return f_lt(ck.leaf(a), ck.leaf(b))
        return None
    for name, f in traits(ck, 'Ord', 'cmp'):
        def go():
            ty = self_type(ck, f)
            st, (a, b), (ra, rb) = two(ck, ty)
            outs = ck.run(f, (ra, rb), st)
            def post(s, v):
                c = rank(s, v)
                e = value_eq(ip, s, a, b)
                r = [(e if c == 1 else f_not(e), 'equal order of different values' if c == 1 else 'equal values are ordered')]
                lt = numeric(s, name, a, b)
                if lt is not None: r.append((f_iff(lt, c == 0), 'not the numeric order'))
                return r
            ck.prove('order of %s' % name, outs, post, msg='order of %s' % name)
            # antisymmetry
            def anti():
                for o in outs:
                    if o.kind != 'ret': continue
                    s0 = o.st.copy()
                    c0 = rank(s0, o.value)
                    for p in ck.run(f, (rb, ra), s0):
                        if p.kind != 'ret':
                            ck.undecided('antisymmetry of %s' % name, p.msg); continue
                        ck.require('antisymmetry of %s' % name, p.st, lambda s: rank(s, p.value) == 2 - c0, 'a < b but not b > a for %s' % name)
                ck.ok('antisymmetry of %s' % name)
            ck.group('antisymmetry of %s' % name, anti)
            def trans():
                st, (a, b, c), (ra, rb, rc) = two(ck, ty, 'abc')
                nm = 'transitivity of %s' % name
                for o in ck.run(f, (ra, rb), st):
                    if o.kind != 'ret': raise Undecided(o.msg)
                    s0 = o.st.copy()
                    r0 = rank(s0, o.value)
                    if r0 == 2: continue
                    for p in ck.run(f, (rb, rc), s0):
                        if p.kind != 'ret': raise Undecided(p.msg)
                        s1 = p.st.copy()
                        r1 = rank(s1, p.value)
                        if r1 == 2: continue
                        for q in ck.run(f, (ra, rc), s1):
                            if q.kind != 'ret': raise Undecided(q.msg)
                            ck.require(nm, q.st, lambda s: rank(s, q.value) == (1 if r0 == r1 == 1 else 0), 'a <= b <= c but not a <= c for %s' % name)
                ck.ok(nm)
            ck.group('transitivity of %s' % name, trans)
        ck.group('order of %s' % name, go)
    for m in ('partial_cmp', 'lt', 'le', 'gt', 'ge'):
        for name, f in traits(ck, 'PartialOrd', m):
            def go():
                ty = self_type(ck, f)
                st, (a, b), refs = two(ck, ty)
                g = ck.fn('<%s as Ord>::cmp' % name, optional=True)
                if g is None: return
                for o in ck.run(g, refs, st):
                    if o.kind != 'ret':
                        ck.undecided('%s of %s' % (m, name), o.msg); continue
                    s0 = o.st.copy()
                    c0 = rank(s0, o.value)
                    def post(s, v):
                        if m != 'partial_cmp': return f_iff(v, {'lt': c0 == 0, 'le': c0 < 2, 'gt': c0 == 2, 'ge': c0 > 0}[m])
                        if rank(s, v) == 0: return [(False, 'incomparable values')]
                        return [(rank(s, ip.force(v).f[0]) == c0, 'the partial order differs from the order')]
                    ck.prove('%s of %s' % (m, name), ck.run(f, refs, s0), post, msg='%s of %s' % (m, name))
            ck.group('%s of %s' % (m, name), go)
    for name, f in traits(ck, 'Clone', 'clone'):
        def go():
            ty = self_type(ck, f)
            st, (a,), (ra,) = two(ck, ty, 'a')
            outs = ck.run(f, (ra,), st)
            ck.prove('copy of %s' % name, outs, lambda s, v: value_eq(ip, s, v, a), msg='a copy of %s is not equal to it' % name)
        ck.group('copy of %s' % name, go)

def c26(ck):
    """Header construction and validity, the plain conversions, default values and the attribute accessors of both writers are analysed for arbitrary arguments and compared with what they are specified to return."""
    from c_hist import field_of_type
    ip = ck.ip
    MAGIC = [ord(c) for c in 'RTPS']
    def parts(s, v, ty):
        """the leaves of a structure in order"""
        t = ck.p.T[ty]
        v = ip.force(v)
        if t['k'] == 'struct':
            out = []
            for i, f in enumerate(t['variants'][0]['fields']):
                out += parts(s, ip.sym_child(v, 0, i) if isinstance(v, Sym) else ip.step_in(s, v, i), f[1])
            return out
        if t['k'] == 'array':
            q = ip.to_seq(v)
            n = ip.seq_len(q).c
            return [ip.force(ip.seq_get(s, q, K(i))) for i in range(n)]
        return [v]
    def are(s, v, ty, nums):
        p = parts(s, v, ty)
        if len(p) != len(nums): return False
        return f_and(*[f_eq(x, y if isinstance(y, Lin) else K(y)) for x, y in zip(p, nums)])
    def header():
        ht, pt = ck.ty('Header'), ck.ty('GuidPrefix_t')
        g = ck.sym(pt, 'prefix')
        outs = ck.run(ck.fn('Header::new'), (g,))
        def post(s, v):
            F = lambda n, alt: ck.fld(s, v, ht, n, alt)
            return [(are(s, F('protocol_id', 'ProtocolId_t'), ck.ty('ProtocolId_t'), MAGIC), 'the magic is not RTPS'),
                    (are(s, F('protocol_version', 'ProtocolVersion_t'), ck.ty('ProtocolVersion_t'), [2, 4]), 'not the implemented version'),
                    (are(s, F('vendor_id', 'VendorId_t'), ck.ty('VendorId_t'), [0, 0]), 'not the unknown vendor'),
                    (value_eq(ip, s, F('guid_prefix', 'GuidPrefix_t'), g), 'not the given prefix')]
        ck.prove('new header', outs, post, msg='a new header')
        f = ck.fn('<Header as Validity>::valid')
        for o in outs:
            if o.kind != 'ret': continue
            s = o.st.copy()
            ck.prove('new header is valid', ck.run(f, (Ref(s.alloc(o.value)),), s), lambda s, v: f_iff(v, True), msg='a new header is invalid')
    ck.group('new header', header)
    def valid():
        ht = ck.ty('Header')
        st = State()
        h = ck.sym(ht, 'header')
        outs = ck.run(ck.fn('<Header as Validity>::valid'), (Ref(st.alloc(h)),), st)
        def post(s, v):
            m = are(s, ck.fld(s, h, ht, 'protocol_id', 'ProtocolId_t'), ck.ty('ProtocolId_t'), MAGIC)
            ver = ck.fld(s, h, ht, 'protocol_version', 'ProtocolVersion_t')
            return f_iff(v, f_and(m, f_leq(ck.fld(s, ver, ck.ty('ProtocolVersion_t'), 'major'), K(2))))
        ck.prove('header validity', outs, post, msg='a header is not valid exactly with the magic and a supported major version')
    ck.group('header validity', valid)
    def magic():
        t = ck.ty('ProtocolId_t')
        st = State()
        a = ck.sym(t, 'magic')
        outs = ck.run(ck.fn('<ProtocolId_t as Validity>::valid'), (Ref(st.alloc(a)),), st)
        ck.prove('protocol id validity', outs, lambda s, v: f_iff(v, are(s, a, t, MAGIC)), msg='a protocol id is not valid exactly if it is RTPS')
    ck.group('protocol id validity', magic)
    # conversions
    def conv():
        n = A(atom(('s', 'n', 'i32'), 32, True))
        to, back = ck.fn('<Count_t as From<i32>>::from'), ck.fn('<impl From<Count_t> for i32>::from')
        ck.prove('count from i32', ck.run(to, (n,)), lambda s, v: f_eq(ck.leaf(v), n), msg='conversion to a count')
        c = ck.sym('Count_t', 'count')
        ck.prove('count to i32', ck.run(back, (c,)), lambda s, v: f_eq(ck.leaf(v), ck.leaf(c)), msg='conversion of a count')
    ck.group('count conversions', conv)
    for name, arr in (('GuidPrefix_t', '[u8; 12]'), ('VendorId_t', '[u8; 2]')):
        def go():
            f = ck.fn('<%s as From<%s>>::from' % (name, arr))
            at = f['locals'][1]
            a = ck.sym(at, 'octets' + name)
            ck.prove('%s from octets' % name, ck.run(f, (a,)), lambda s, v: are(s, v, ck.ty(name), parts(s, a, at)), msg='conversion of octets to %s' % name)
        ck.group('%s from octets' % name, go)
    # defaults
    DEFAULT = {'SequenceNumber_t': [1], 'FragmentNumber_t': [1], 'ProtocolId_t': MAGIC, 'ProtocolVersion_t': [2, 4], 'VendorId_t': [0, 0],
               'EntityId_t': [0] * 4, 'GuidPrefix_t': [0] * 12, 'GUID_t': [0] * 16, 'InstanceHandle_t': [0] * 16, 'Time_t': [0, 0]}
    for name in sorted(DEFAULT):
        def go():
            f = ck.fn('<%s as Default>::default' % name)
            ck.prove('default %s' % name, ck.run(f, ()), lambda s, v: are(s, v, ck.ty(name), DEFAULT[name]), msg='default value of %s' % name)
        ck.group('default %s' % name, go)
    def locator():
        lt, kt = ck.ty('Locator_t'), ck.ty('LocatorKind_t')
        f = ck.fn('<Locator_t as Default>::default')
        ck.prove('default Locator_t', ck.run(f, ()), lambda s, v: [
            (ip.variant_of(s, ck.fld(s, v, lt, 'kind', 'LocatorKind_t')) == ck.variant(kt, 'LOCATOR_KIND_INVALID'), 'not the invalid kind'),
            (f_and(*[f_eq0(x) for n in ('port', 'address') for x in parts(s, ck.fld(s, v, lt, n), ck.fty(lt, n))]), 'port or address is not zero')], msg='default value of Locator_t')
    ck.group('default Locator_t', locator)
    # attributes
    for wr in ('StatelessWriter', 'StatefulWriter'):
        for tr, m, at in (('Entity', 'as_entity', 'EntityAttributes'), ('Endpoint', 'as_endpoint', 'EndpointAttributes'), ('Writer', 'as_writer', 'WriterAttributes')):
            def go():
                f = ck.fn('<%s as %s>::%s' % (wr, tr, m))
                st = State()
                w = ck.sym(wr, 'w' + wr)
                r = Ref(st.alloc(w))
                outs = ck.run(f, (r,), st)
                def post(s, v):
                    v = ip.as_ref(v)
                    i = field_of_type(ck, ck.ty(wr), at)
                    return [(value_eq(ip, s, ip.get(s, v.root, v.path), ip.sym_child(w, 0, i)), 'not its own attributes'), (ip.get(s, r.root, r.path) == w, 'the writer changes')]
                ck.prove('%s %s' % (wr, m), outs, post, msg='%s of %s' % (m, wr))
            ck.group('%s %s' % (wr, m), go)
