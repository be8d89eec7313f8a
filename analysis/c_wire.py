"""Checks of the wire types: encoding, decoding, layout, sizes, number sets, parameters."""
from check import *
from c_hist import same, deref, items, field_of_type, struct_with, bound
from c_values import ENUMS, imp
import models

ENDIANS = ('LittleEndian', 'BigEndian')

def endian_value(ck, endian):
    ty = next((t for t in ck.p.d['types'] if norm(t.get('def', '')) == 'speedy::Endianness'), None)
    if ty is None: raise Anchor('byte order type')
    return Agg(ck.variant(ty['id'], endian), ())

def tname(ck, ty): return short(norm(ck.p.T[ty]['s']))

def wire_types(ck, what):
    """types of the crate with a Readable/Writable implementation: name -> type"""
    out = {}
    rx = re.compile(r"<(.*) as %s<.*>>::(read_from|write_to)::<(BufferReader|BufferCollector)<'_, Endianness>>" % what)
    for n, fs in ck.names.items():
        m = rx.fullmatch(n)
        if not m or not any('blocks' in f for f in fs): continue
        t = ck.ty(m.group(1), optional=True)
        if t is not None and not m.group(1).startswith('Vec<'): out[m.group(1)] = t
    if not out: raise Anchor('no %s type' % what)
    return out

def encode(ck, ty, val, endian, st=None):
    """outcomes of writing a value: the bytes, or None when it is rejected"""
    ip = ck.ip
    f = ck.fn("<%s as Writable<Endianness>>::write_to::<BufferCollector<'_, Endianness>>" % tname(ck, ty))
    cty = ck.p.T[f['locals'][2]]['of']
    fs = ck.p.T[cty]['variants'][0]['fields']
    st = (st or State()).copy()
    sink = st.alloc(Nat('sink', SeqV(())))
    over = {'context': endian_value(ck, endian), 'buffer': Ref(sink), 'position': ZERO}
    c = st.alloc(Agg(0, tuple(over.get(x[0], UNIT) for x in fs)))
    r = st.alloc(val)
    out = []
    for o in ck.run(f, (Ref(r), Ref(c)), st):
        if o.kind != 'ret':
            out.append(o); continue
        ok = ip.variant_of(o.st, ip.force(o.value)) == 0
        out.append(Outcome('ret', o.st, o.st.mem[sink].d[0] if ok else None))
    return out

def size_of(ck, ty, val, st=None):
    """outcomes of computing the encoded size of a value"""
    ip = ck.ip
    f = ck.fn("<%s as Writable<Endianness>>::write_to::<SizeCalculatorCollector>" % tname(ck, ty), optional=True)
    if f is None: return []
    cty = ck.p.T[f['locals'][2]]['of']
    st = (st or State()).copy()
    c = st.alloc(Agg(0, tuple(ZERO for x in ck.p.T[cty]['variants'][0]['fields'])))
    r = st.alloc(val)
    out = []
    for o in ck.run(f, (Ref(r), Ref(c)), st):
        if o.kind != 'ret':
            out.append(o); continue
        ok = ip.variant_of(o.st, ip.force(o.value)) == 0
        out.append(Outcome('ret', o.st, ip.get(o.st, c, (ck.findex(cty, 'size'),)) if ok else None))
    return out

def announced(ck, ty, val, st):
    """outcomes of asking a value for its encoded size"""
    f = ck.fn("<%s as Writable<Endianness>>::bytes_needed" % tname(ck, ty), optional=True)
    if f is None: return size_of(ck, ty, val, st)
    return [unwrapped(ck, o) for o in ck.run(f, (Ref(st.alloc(val)),), st)]

def written(ck, ty, val, endian, st):
    """outcomes of encoding a value into a new vector"""
    f = ck.fn("<%s as Writable<Endianness>>::write_to_vec_with_ctx" % tname(ck, ty), optional=True)
    if f is None: return []
    return [unwrapped(ck, o) for o in ck.run(f, (Ref(st.alloc(val)), endian_value(ck, endian)), st)]

def unwrapped(ck, o):
    """the value of an Ok result, None for an error"""
    if o.kind != 'ret': return o
    v = ck.ip.force(o.value)
    ok = ck.ip.variant_of(o.st, v) == 0
    return Outcome('ret', o.st, ck.ip.force(ck.ip.step_in(o.st, v, ('v', 0, 0))) if ok else None)

def decode(ck, ty, seq, endian, st=None, raw=False):
    """outcomes of reading from a buffer: (value or None, bytes consumed); raw skips the test of the minimum size"""
    ip = ck.ip
    st = (st or State()).copy()
    b = st.alloc(seq)
    n = ip.seq_len(seq)
    e = endian_value(ck, endian)
    if not raw:
        f = ck.fn("<%s as Readable<'_, Endianness>>::read_with_length_from_buffer_with_ctx" % tname(ck, ty))
        outs = ck.run(f, (e, Ref(b, (), (ZERO, n))), st)
    else:
        f = ck.fn("<%s as Readable<'_, Endianness>>::read_from::<BufferReader<'_, Endianness>>" % tname(ck, ty))
        rty = ck.p.T[f['locals'][1]]['of']
        fs = ck.p.T[rty]['variants'][0]['fields']
        over = {'context': e, 'ptr': models.elem_ref(b, (), ZERO), 'end': models.elem_ref(b, (), n)}
        r = st.alloc(Agg(0, tuple(over.get(x[0], UNIT) for x in fs)))
        outs = ck.run(f, (Ref(r),), st)
    out = []
    for o in outs:
        if o.kind != 'ret':
            out.append(o); continue
        v = ip.force(o.value)
        if raw:
            p = ip.as_ref(ip.get(o.st, r, (ck.findex(rty, 'ptr'),)))
            res, used = v, p.path[-1][1]
        else: res, used = ip.force(v.f[0]), ip.force(v.f[1])
        res = ip.force(res)
        ok = ip.variant_of(o.st, res) == 0
        out.append(Outcome('ret', o.st, (ip.force(ip.step_in(o.st, res, ('v', 0, 0))) if ok else None, used)))
    return out

def minimum(ck, ty):
    f = ck.fn("<%s as Readable<'_, Endianness>>::minimum_bytes_needed" % tname(ck, ty))
    return ck.run(f, ())

# ---------------------------------------------------------------- values

def contains(ck, ty, pred, seen=()):
    t = ck.p.T[ty]
    if pred(ty): return True
    if ty in seen or t['k'] != 'struct': return False
    return any(contains(ck, f[1], pred, seen + (ty,)) for f in t['variants'][0]['fields'])

def is_bitvec(ck): return lambda ty: ck.p.adt(ty) == 'bit_vec::BitVec'
def is_chars(ck): return lambda ty: ck.p.T[ty]['k'] == 'array' and ck.p.T[ck.p.T[ty]['of']]['k'] == 'char'
def is_bytes(ck): return lambda ty: ck.p.adt(ty) == 'std::vec::Vec' and ck.p.T[ty]['s'].endswith('<u8>')

def build(ck, ty, name, subst):
    """an arbitrary value in which parts of some types are given"""
    v = subst(ty)
    if v is not None: return v
    t = ck.p.T[ty]
    if t['k'] == 'array' and ck.p.T[t['of']]['k'] == 'char':
        # characters that stand for one octet
        return Agg(0, tuple(A(atom(('s', '%s%d' % (name, i)), 8)) for i in range(t['n'])))
    if t['k'] == 'array': return Sym(ty, ('s', name))
    if t['k'] == 'struct' and any(contains(ck, f[1], lambda x: subst(x) is not None or is_chars(ck)(x)) for f in t['variants'][0]['fields']):
        return Agg(0, tuple(build(ck, f[1], name + '.' + f[0], subst) for f in t['variants'][0]['fields']))
    return Sym(ty, ('s', name))

def words_of(nbits, name):
    """the words of a bit vector with this many bits, arbitrary within its length"""
    out = []
    for i in range((nbits + 31) // 32):
        k = min(32, nbits - 32 * i)
        out.append(A(atom(('s', '%s%d.%d' % (name, i, k)), 32, False, 0, (1 << k) - 1)) if k < 32 else A(atom(('s', '%s%d' % (name, i)), 32)))
    return out

def bitvec(ck, ty, words, nbits):
    fs = ck.p.T[ty]['variants'][0]['fields']
    out = []
    for f in fs:
        if f[0] == 'storage': out.append(SeqV((('E', tuple(words)),)) if words else SeqV(()))
        elif f[0] == 'nbits': out.append(K(nbits))
        else: raise Anchor('layout of the bit vector')
    return Agg(0, tuple(out))

def variants_of(ck, ty, thorough):
    """[(text, value, state)]: arbitrary values, with each size of the contained set or list"""
    n = tname(ck, ty)
    if contains(ck, ty, is_bitvec(ck)):
        sizes = range(257) if thorough else (0, 1, 31, 32, 33, 64, 95, 96, 129, 160, 192, 224, 255, 256)
        for k in sizes:
            yield 'of %d bits' % k, build(ck, ty, n, lambda t: bitvec(ck, t, words_of(k, 'word'), k) if is_bitvec(ck)(t) else None)
    elif contains(ck, ty, is_bytes(ck)):
        yield 'of any number of bytes', build(ck, ty, n, lambda t: None)
        for k in (range(70) if thorough else (0, 1, 2, 3, 4, 5, 7, 8, 13, 16, 33)):
            yield 'of %d bytes' % k, build(ck, ty, n, lambda t: SeqV((('E', tuple(A(atom(('s', 'octet%d' % i), 8)) for i in range(k))),) if k else ()) if is_bytes(ck)(t) else None)
    elif contains(ck, ty, is_chars(ck)): yield '', build(ck, ty, n, lambda t: None)
    else: yield '', Sym(ty, ('s', n))

def bitset_parts(ck, s, v, ty):
    """(words, number of bits) of a bit vector whose size is known"""
    ip = ck.ip
    ws = items(ck, s, ip.step_in(s, ip.force(v), ck.findex(ty, 'storage')))
    nb = ip.concrete(s, ip.force(ip.step_in(s, ip.force(v), ck.findex(ty, 'nbits'))), 300)
    return ws, nb

def equal(ck, s, a, b, ty, pad=True):
    """equality of two values; bit vectors up to trailing zero bits, byte lists of parameters up to padding of b"""
    ip = ck.ip
    t = ck.p.T[ty]
    a = ip.force(a); b = ip.force(b)
    if is_bitvec(ck)(ty):
        (wa, na), (wb, nb) = bitset_parts(ck, s, a, ty), bitset_parts(ck, s, b, ty)
        n = max(len(wa), len(wb))
        wa = wa + [ZERO] * (n - len(wa)); wb = wb + [ZERO] * (n - len(wb))
        # a member must also lie below the length of the vector
        lim = [f_leq(w, K((1 << max(0, min(32, m - 32 * i))) - 1)) for ws, m in ((wa, na), (wb, nb)) for i, w in enumerate(ws)]
        return f_and(*([f_eq(x, y) for x, y in zip(wa, wb)] + lim)) if n else True
    if is_bytes(ck)(ty) and pad:
        a, b = ip.to_seq(a), ip.to_seq(b)
        la, lb = ip.seq_len(a), ip.seq_len(b)
        if la.t or lb.t:
            pad = (-ip.concrete(s, ip.binop(s, 'Rem', la, K(4), ck.p.usize, None), 4)) % 4
            if not s.decide(f_eq(lb, la + K(pad))): return False
            # the element at an arbitrary position
            j = A(atom(('s', 'position'), 64))
            if s.decide(f_lt(j, la)): eq = f_eq(ip.seq_get(s, a, j), ip.seq_get(s, b, j))
            elif s.decide(f_lt(j, lb)): eq = f_eq0(ip.seq_get(s, b, j))
            else: eq = True
            return eq
        xa, xb = items(ck, s, a), items(ck, s, b)
        if len(xb) != (len(xa) + 3) // 4 * 4: return False
        return f_and(*[f_eq(x, y) for x, y in zip(xa + [ZERO] * 4, xb)]) if xb else True
    if t['k'] == 'struct' and (contains(ck, ty, is_bitvec(ck)) or contains(ck, ty, is_bytes(ck))):
        return f_and(*[equal(ck, s, ip.step_in(s, a, i), ip.step_in(s, b, i), f[1], pad) for i, f in enumerate(t['variants'][0]['fields'])])
    return same(ck, s, a, b)

def total(ck, outs, name, what):
    """paths that do not return a value are reported"""
    good = []
    for o in outs:
        if o.kind == 'ret': good.append(o)
        else: ck.prove(name, [o], lambda s, v: True, msg=what)
    return good

def too_long(ck, s, ty, val):
    """formula: the value has more bytes than the length field can hold"""
    if not contains(ck, ty, is_bytes(ck)): return False
    t, v = find_in(ck, s, ty, val, is_bytes(ck))
    return f_leq(K(65533), ck.ip.seq_len(ck.ip.to_seq(v)))

# ---------------------------------------------------------------- C10

def c10(ck):
    """Every type of the crate that can be written and read: an arbitrary value is written in each byte order, the bytes are read back, and the result is compared with the value and the number of bytes read with the number written. The size announced before writing is compared with the bytes written."""
    w = wire_types(ck, 'Writable'); r = wire_types(ck, 'Readable')
    ip = ck.ip
    for n in sorted(w):
        ty = w[n]
        def go():
            sizes_done = False
            for endian in ENDIANS:
                for text, val in variants_of(ck, ty, ck.tier == 'thorough'):
                    name = '%s %s%s' % (n, endian, ' ' + text if text else '')
                    enc = encode(ck, ty, val, endian)
                    ck.prove(name + ' written', enc, lambda s, v: [(v is not None or too_long(ck, s, ty, val), 'a value is not encodable')], msg='write %s' % n)
                    for o in enc:
                        if o.kind != 'ret' or o.value is None: continue
                        m = ip.seq_len(o.value)
                        ck.prove(name + ' size', size_of(ck, ty, val, o.st), lambda s, v: [(v is not None and f_eq(v, m), 'the announced size is not the number of bytes written')], msg='size of %s' % n)
                        ck.prove(name + ' announced size', announced(ck, ty, val, o.st.copy()), lambda s, v: [(v is not None and f_eq(v, m), 'the announced size is not the number of bytes written')], msg='size of %s' % n)
                        vec = written(ck, ty, val, endian, o.st.copy()) if not m.t else []
                        if vec: ck.prove(name + ' as vector', vec, lambda s, v: [(v is not None and value_eq(ip, s, v, o.value), 'other bytes are written to a vector')], msg='write %s' % n)
                        if n not in r: continue
                        dec = decode(ck, ty, o.value, endian, o.st)
                        def post(s, v):
                            if v[0] is None: return [(False, 'the encoded value is not decodable')]
                            return [(equal(ck, s, val, v[0], ty), 'another value is decoded'), (f_eq(v[1], m), 'the bytes consumed are not those written')]
                        ck.prove(name, dec, post, msg='round trip of %s' % n)
        ck.group(n, go)

# ---------------------------------------------------------------- C11

INT, OCT = 'int', 'octets'
LAYOUT = {
    'EntityId_t': [('entity_key', '[u8; 3]', (OCT, 3)), ('entity_kind', 'u8', (OCT, 1))],
    'GuidPrefix_t': [('entity_key', '[u8; 12]', (OCT, 12))],
    'GUID_t': [('guid_prefix', 'GuidPrefix_t', 'GuidPrefix_t'), ('entity_id', 'EntityId_t', 'EntityId_t')],
    'InstanceHandle_t': [('entity_key', '[u8; 16]', (OCT, 16))],
    'ReliabilityKind_t': [(None, None, (INT, 4))],
    'VendorId_t': [('vendorId', '[u8; 2]', (OCT, 2))],
    'ProtocolId_t': [('protocol_id', '[char; 4]', (OCT, 4))],
    'ProtocolVersion_t': [('major', None, (OCT, 1)), ('minor', None, (OCT, 1))],
    'Count_t': [(None, None, (INT, 4))],
    'FragmentNumber_t': [(None, None, (INT, 4))],
    'SubmessageKind': [(None, None, (INT, 1))],
    'SubmessageFlag': [(None, None, (INT, 1))],
    'ParameterId': [(None, None, (INT, 2))],
    'Time_t': [('seconds', 'i32', (INT, 4)), ('fraction', 'u32', (INT, 4))],
    'Duration_t': [('seconds', 'i32', (INT, 4)), ('fraction', 'u32', (INT, 4))],
    'LocatorUDPv4_t': [('address', None, (INT, 4)), ('port', None, (INT, 4))],
    'Locator_t': [('kind', 'LocatorKind_t', 'LocatorKind_t'), ('port', 'u32', (INT, 4)), ('address', '[u8; 16]', (OCT, 16))],
    'Header': [('protocol_id', 'ProtocolId_t', 'ProtocolId_t'), ('protocol_version', 'ProtocolVersion_t', 'ProtocolVersion_t'), ('vendor_id', 'VendorId_t', 'VendorId_t'), ('guid_prefix', 'GuidPrefix_t', 'GuidPrefix_t')],
    'InfoDestination': [('guid_prefix', 'GuidPrefix_t', 'GuidPrefix_t')],
    'InfoSource': [('protocol_version', 'ProtocolVersion_t', 'ProtocolVersion_t'), ('vendor_id', 'VendorId_t', 'VendorId_t'), ('guid_prefix', 'GuidPrefix_t', 'GuidPrefix_t')],
    'Heartbeat': [('reader_id', None, 'EntityId_t'), ('writer_id', None, 'EntityId_t'), ('first_sn', None, 'SequenceNumber_t'), ('last_sn', None, 'SequenceNumber_t'), ('count', 'Count_t', 'Count_t')],
    'HeartbeatFrag': [('reader_id', None, 'EntityId_t'), ('writer_id', None, 'EntityId_t'), ('writer_sn', 'SequenceNumber_t', 'SequenceNumber_t'), ('last_fragment_num', 'FragmentNumber_t', 'FragmentNumber_t'), ('count', 'Count_t', 'Count_t')],
    'AckNack': [('reader_id', None, 'EntityId_t'), ('writer_id', None, 'EntityId_t'), ('reader_sn_state', 'RangedBitSet<SequenceNumber_t>', 'SequenceNumberSet'), ('count', 'Count_t', 'Count_t')],
    'Gap': [('reader_id', None, 'EntityId_t'), ('writer_id', None, 'EntityId_t'), ('gap_start', 'SequenceNumber_t', 'SequenceNumber_t'), ('gap_list', 'RangedBitSet<SequenceNumber_t>', 'SequenceNumberSet')],
    'NackFrag': [('reader_id', None, 'EntityId_t'), ('writer_id', None, 'EntityId_t'), ('writer_sn', 'SequenceNumber_t', 'SequenceNumber_t'), ('fragment_number_state', 'RangedBitSet<FragmentNumber_t>', 'FragmentNumberSet'), ('count', 'Count_t', 'Count_t')],
}
SET_BASE = {'RangedBitSet<SequenceNumber_t>': 'SequenceNumber_t', 'RangedBitSet<FragmentNumber_t>': 'FragmentNumber_t'}

def int_bytes(x, n, big):
    """the bytes of an integer, from its bits"""
    b = to_bits(x, 8 * n)
    if b is None: raise Undecided('bits of %s' % x)
    out = [from_bits(b[8 * i:8 * i + 8]) for i in range(n)]
    return out[::-1] if big else out

def split64(x):
    """bytes, least significant first, of a signed 64 bit integer"""
    return int_bytes(x, 8, False)

def spec_bytes(ck, s, ty, v, big, form=(False, False)):
    """the encoding of a value according to the RTPS specification"""
    ip = ck.ip
    n = tname(ck, ty)
    v = ip.force(v)
    if n in ENUMS:
        k = ip.variant_of(s, v)
        name = ck.p.T[ty]['variants'][k]['name']
        if name not in ENUMS[n]: raise Anchor('%s::%s' % (n, name))
        return int_bytes(K(ENUMS[n][name]), 4, big)
    if n == 'SequenceNumber_t':
        b = split64(ck.leaf(v))
        hi, lo = b[4:], b[:4]
        return (hi[::-1] + lo[::-1]) if big else (hi + lo)
    if n in SET_BASE: 
        bt = SET_BASE[n]
        out = spec_bytes(ck, s, ck.fty(ty, 'base', alt=bt), ck.fld(s, v, ty, 'base', bt), big, form)
        return out + spec_bytes(ck, s, ck.fty(ty, 'set', alt='BitSetRef'), ck.fld(s, v, ty, 'set', 'BitSetRef'), big, form)
    if contains(ck, ty, is_bitvec(ck)) and n not in LAYOUT:
        bty, bv = find_in(ck, s, ty, v, is_bitvec(ck))
        ws, nb = bitset_parts(ck, s, bv, bty)
        exact, msb = form
        out = int_bytes(K(nb if exact else len(ws) * 32), 4, big)
        for w in ws: out += int_bytes(reverse32(w) if msb else w, 4, big)
        return out
    if n == 'SubmessageHeader':
        kind, flags = ck.fld(s, v, ty, 'submessage_id', 'SubmessageKind'), ck.fld(s, v, ty, 'flags', 'SubmessageFlag')
        length = ck.fld(s, v, ty, 'submessage_length', 'u16')
        fb = ck.leaf(flags)
        little = s.decide(bit_formula(to_bits(fb, 8)[0]))
        return [ck.leaf(kind), fb] + int_bytes(length, 2, not little)
    if n == 'Parameter':
        pid = ck.leaf(ck.fld(s, v, ty, 'parameter_id', 'ParameterId'))
        seq = ip.to_seq(ip.force(ck.fld(s, v, ty, 'value', 'Vec<u8>')))
        ln = ip.seq_len(seq)
        if ln.t:
            pad = (-ip.concrete(s, ip.binop(s, 'Rem', ln, K(4), ck.p.usize, None), 4)) % 4
            m = ln + K(pad)
            if not s.assume(f_leq(m, K(65535))): raise Dead()
            mb = ip.bits(s, m, 16, False)
            mb = [from_bits(mb[:8]), from_bits(mb[8:])]
            head = int_bytes(pid, 2, big) + (mb[::-1] if big else mb)
            return SeqV((('E', tuple(head)),) + seq.segs + ((('E', (ZERO,) * pad),) if pad else ()))
        xs = items(ck, s, seq)
        m = (len(xs) + 3) // 4 * 4
        return int_bytes(pid, 2, big) + int_bytes(K(m), 2, big) + xs + [ZERO] * (m - len(xs))
    if n not in LAYOUT: raise Anchor('no layout for %s' % n)
    out = []
    for name, alt, lay in LAYOUT[n]:
        if name is None: x = ck.leaf(v)
        else:
            x = ck.fld(s, v, ty, name, alt)
        if isinstance(lay, str): out += spec_bytes(ck, s, ck.fty(ty, name, alt=alt), x, big, form)
        elif lay[0] == INT: out += int_bytes(ck.leaf(x), lay[1], big)
        else:
            x = ip.force(x)
            xs = [x] if isinstance(x, Lin) else items(ck, s, x)
            if len(xs) != lay[1]: return None
            out += xs
    return out

def find_in(ck, s, ty, v, pred):
    """(type, value) of the part of a value with the wanted type"""
    ip = ck.ip
    while not pred(ty):
        t = ck.p.T[ty]
        for i, f in enumerate(t['variants'][0]['fields']):
            if contains(ck, f[1], pred):
                v = ip.force(ip.step_in(s, ip.force(v), i)); ty = f[1]
                break
        else: raise Anchor('part of %s' % t['s'])
    return ty, v

def as_seq(want):
    return want if isinstance(want, SeqV) else SeqV((('E', tuple(want)),)) if want else SeqV(())

def eq_anywhere(ck, s, a, b):
    """equality of sequences of unknown length: the lengths and the element at an arbitrary position"""
    ip = ck.ip
    la, lb = ip.seq_len(a), ip.seq_len(b)
    if not s.decide(f_eq(la, lb)): return False
    j = A(atom(('s', 'position'), 64))
    if not s.decide(f_lt(j, la)): return True
    return f_eq(ip.seq_get(s, a, j), ip.seq_get(s, b, j))

def eq_bytes(ck, s, got, want):
    if want is None: return False
    if isinstance(want, SeqV): return eq_anywhere(ck, s, ck.ip.to_seq(got), want)
    return models.seq_eq(ck.ip, s, ck.ip.to_seq(got), SeqV((('E', tuple(want)),)) if want else SeqV(()))

UNUSED = 'a field is missing: 4 unused bytes precede the version'
BITORDER = 'offset i is not the (i mod 32)-th most significant bit'

def c11(ck):
    """Every wire type, in each byte order: an arbitrary value is written and the bytes compared with those of the layout table of the RTPS specification; the bytes of that table are read and the result compared with the value. The bit order of number sets is decided for every single-member set."""
    ip = ck.ip
    w = wire_types(ck, 'Writable'); r = wire_types(ck, 'Readable')
    order = {True: 'big endian', False: 'little endian'}
    for n in sorted(set(w) | set(r)):
        ty = w.get(n, r.get(n))
        # sets are compared here as the crate stores them; the order of their bits is decided below
        def go():
            for endian in ENDIANS:
                big = endian == 'BigEndian'
                for text, val in variants_of(ck, ty, ck.tier == 'thorough'):
                    name = '%s %s%s' % (n, order[big], ' ' + text if text else '')
                    is_set = contains(ck, ty, is_bitvec(ck))
                    # a set may be written with its own bit count or with that of its words
                    forms = [(x, y) for y in (False, True) for x in (False, True)] if is_set else [(False, False)]
                    if n in w:
                        def post(s, v):
                            if v is None: return True
                            first = None
                            for form in forms:
                                f = enc_matches(ck, s, v, spec_bytes(ck, s, ty, val, big, form), n)
                                if f is True or s.facts.holds(f): return True
                                first = f if first is None else first
                            return [(first, 'the bytes written differ from the layout')]
                        ck.prove(name + ' written', encode(ck, ty, val, endian), post, msg='layout of %s' % n)
                    if n in r:
                        def reading(form):
                            return [(s0, want, decode(ck, ty, as_seq(want), endian, s0)) for s0, want in ck.cases(State(), lambda s: spec_bytes(ck, s, ty, val, big, form))]
                        for exact in ((False, True) if is_set else (False,)):
                            runs = reading((exact, False))
                            if is_set and not all(holds_all(ck, o, val, ty, x) for _, x, o in runs):
                                other = reading((exact, True))
                                if all(holds_all(ck, o, val, ty, x) for _, x, o in other): runs = other
                            for s0, want, outs in runs:
                                def post2(s, v):
                                    if v[0] is None: return [(False, 'the specified bytes are not decodable')]
                                    return [(equal(ck, s, val, v[0], ty), 'another value is decoded'), (f_eq(v[1], ip.seq_len(as_seq(want))), 'the number of bytes consumed differs from the layout')]
                                if n == 'InfoSource':
                                    # with or without the unused field, which is decided on its own
                                    alt = [ZERO] * 4 + want
                                    if holds_all(ck, decode(ck, ty, as_seq(alt), endian, s0), val, ty, alt): continue
                                ck.prove(name + (' exact count' if exact else '') + ' read', outs, post2, msg='layout of %s' % n)
        ck.group(n, go)
    def unused():
        if 'InfoSource' not in w: return
        ty = w['InfoSource']
        val = ck.sym(ty, 'InfoSource')
        def post(s, v):
            if v is None: return True
            want = spec_bytes(ck, s, ty, val, False)
            return [(f_eq(ip.seq_len(v), K(len(want) + 4)), UNUSED)]
        ck.prove('InfoSource unused field', encode(ck, ty, val, 'LittleEndian'), post, msg='layout of InfoSource')
    ck.group('unused field', unused)
    def bitorder():
        for n in sorted(w):
            if n not in ('BitSetRef',): continue
            ty = w[n]
            for i in (range(256) if ck.tier == 'thorough' else (0, 1, 7, 31, 32, 42, 255)):
                k = i // 32
                ws = [K(1 << (i % 32)) if j == k else ZERO for j in range(k + 1)]
                val = build(ck, ty, 'one', lambda t: bitvec(ck, t, ws, i + 1) if is_bitvec(ck)(t) else None)
                def post(s, v):
                    if v is None: return True
                    b = items(ck, s, v)
                    word = b[4 + 4 * k:8 + 4 * k]
                    got = sum(x.c << (8 * (3 - j)) for j, x in enumerate(word))
                    return [(got == 1 << (31 - i % 32), BITORDER)]
                ck.prove('number set bit order', encode(ck, ty, val, 'BigEndian'), post, msg='set with one member')
                bs = int_bytes(K(32 * (k + 1)), 4, True) + int_bytes(ZERO, 4, True) * k + int_bytes(K(1 << (31 - i % 32)), 4, True)
                def post2(s, v):
                    if v[0] is None: return [(False, 'not decodable')]
                    return [(equal(ck, s, val, v[0], ty), BITORDER)]
                ck.prove('number set bit order', decode(ck, ty, SeqV((('E', tuple(bs)),)), 'BigEndian'), post2, msg='bitmap with one bit')
    ck.group('bit order', bitorder)

def holds_all(ck, outs, val, ty, n):
    for o in outs:
        if o.kind != 'ret' or o.value[0] is None: return False
        if not o.st.facts.holds(equal(ck, o.st, val, o.value[0], ty)): return False
        if not o.st.facts.holds(f_eq(o.value[1], ck.ip.seq_len(as_seq(n)))): return False
    return bool(outs)

def reverse32(w):
    b = to_bits(w, 32)
    return None if b is None else from_bits(b[::-1])

def enc_matches(ck, s, v, want, n):
    if want is None: return False
    f = eq_bytes(ck, s, v, want)
    if n == 'InfoSource' and not s.facts.holds(f):
        g = eq_bytes(ck, s, v, [ZERO] * 4 + want)
        if s.facts.holds(g): return True
    return f
