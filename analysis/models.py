"""Abstract semantics of the library functions that the program uses.

Only functions outside of the analysed crate are modelled here; everything in
the crate itself is interpreted from its MIR.
"""
import re
from lin import *
from absint import *
import absint

N = {}          # def name -> handler
patterns = []   # (predicate on the function, handler)
INTRINSICS = {}
SYM_ADT = {}
AGG_ADT = {}

def native(*names):
    def d(h):
        for n in names: N[n] = h
        return h
    return d

def pat(rx):
    r = re.compile(rx)
    def d(h):
        patterns.append((lambda f: r.match(f['def']) is not None, h))
        return h
    return d

def intrinsic(*names):
    def d(h):
        for n in names: INTRINSICS[n] = h
        return h
    return d

def table(prog): return N

NONE = Agg(0, ())
def some(v): return Agg(1, (v,))
def ok(v): return Agg(0, (v,))
def err(v): return Agg(1, (v,))

def rd(ip, st, r):
    if isinstance(r, Agg): r = ip.as_ref(r)
    return ip.get(st, r.root, r.path)
def wr(ip, st, r, v):
    if isinstance(r, Agg): r = ip.as_ref(r)
    ip.put(st, r.root, r.path, v)

def event(st, *e):
    st.events = st.events + (e,)

# ---------------------------------------------------------------- panics

def _panic(ip, st, c):
    raise PanicEx(panic_text(ip, st, c))
def panic_text(ip, st, c):
    fr = None
    for f in reversed(st.frames):
        if ip.p.local(f.fn):
            fr = f
            break
    w = fr.fn['def'] if fr else '?'
    msg = c.f['def'].rsplit('::', 1)[-1]
    for a in c.args:
        if isinstance(a, Nat) and a.k == 'str': msg += ' "%s"' % a.d[0]
    return '%s in %s' % (msg, w)
pat(r'(core|std)::panicking::(?!unimplemented_default_msg)')(_panic)
pat(r'std::rt::begin_panic|std::rt::panic')(_panic)
pat(r'.*::(unwrap_failed|expect_failed|slice_index_fail|slice_start_index_len_fail|slice_end_index_len_fail|len_mismatch_fail|handle_alloc_error|handle_error|capacity_overflow|panic_bounds_check|assert_failed)$')(_panic)
pat(r'std::process::abort|.*panic_advance|.*::abort$')(_panic)
intrinsic('abort', 'unreachable')(_panic)

# ---------------------------------------------------------------- formatting and logging (no effect on results)

def _opaque(ip, st, c): return Opaque(None, c.f['def'])
pat(r'(core|std|alloc)::fmt::|std::fmt::format|core::fmt::rt::')(_opaque)
pat(r'<.* as std::fmt::(Debug|Display)>::fmt')(lambda ip, st, c: Agg(0, (UNIT,)))
pat(r'core::panicking::unimplemented_default_msg')(_opaque)
N['core::panicking::unimplemented_default_msg'] = _opaque
pat(r'<.* as std::string::ToString>::to_string')(_opaque)
pat(r'std::string::|alloc::string::')(_opaque)
pat(r'<std::string::String as ')(_opaque)
native('<T as std::string::ToString>::to_string', '<&str as std::string::SpecToString>::spec_to_string',
       'std::str::<impl std::borrow::ToOwned for str>::to_owned')(_opaque)
pat(r'(core|std|alloc)::str::')(_opaque)
native('log::__private_api::log')(lambda ip, st, c: UNIT)
native('log::__private_api::loc')(_opaque)
@native('log::max_level')
def _(ip, st, c):
    ty = next((t['id'] for t in ip.p.d['types'] if norm(t.get('def', '')) == 'log::LevelFilter'), None)
    if ty is None: return Opaque(None, 'level')
    return Sym(ty, ('s', 'log level'))
@pat(r'<log::Level as std::cmp::PartialOrd<log::LevelFilter>>::')
def _(ip, st, c):
    name = c.f['def'].rsplit('::', 1)[-1]
    if name == 'partial_cmp':
        x = sym('log.cmp', 2, False, 0, 2)
        return some(Agg(ip.concrete(st, x), ()))
    f = ('p', ('log enabled', name))
    return f
native('std::boxed::convert::<impl std::convert::From<&str> for std::boxed::Box<(dyn std::error::Error + std::marker::Send + std::marker::Sync + \'a)>>::from',
       'std::boxed::convert::<impl std::convert::From<std::string::String> for std::boxed::Box<(dyn std::error::Error + std::marker::Send + std::marker::Sync + \'a)>>::from')(_opaque)

# ---------------------------------------------------------------- io::Error

@pat(r'.*<impl std::io::Error>::(new|other)$|std::io::Error::(new|other)$')
def _(ip, st, c):
    return Nat('ioerr', c.args[0] if c.f['def'].endswith('new') else Opaque(None, 'other'))
@native('std::io::Error::kind')
def _(ip, st, c):
    v = rd(ip, st, c.args[0])
    if isinstance(v, Nat) and v.k == 'ioerr': return v.d[0]
    return Opaque(None, 'kind')
native('<std::io::Error as std::convert::From<std::io::ErrorKind>>::from')(lambda ip, st, c: Nat('ioerr', c.args[0]))
pat(r'.*impl std::convert::From<speedy::Error> for std::io::Error>::from')(lambda ip, st, c: Nat('ioerr', Nat('from', c.args[0])))
pat(r'.*<impl std::convert::From<std::io::ErrorKind> for std::io::Error>::from')(lambda ip, st, c: Nat('ioerr', c.args[0]))

# ---------------------------------------------------------------- pointers, slices

def elem_size(ip, tid):
    t = ip.p.T[tid]
    s = ip.p.T[t['of']].get('size')
    return s

def slice_of(ip, st, r):
    """(root, path, start, len) of a slice, array or vector reference"""
    if isinstance(r, Agg): r = ip.as_ref(r)
    if not isinstance(r, Ref):
        raise Undecided('slice of %r' % (r,))
    if r.meta is not None: return r.root, r.path, r.meta[0], r.meta[1]
    v = ip.get(st, r.root, r.path)
    if isinstance(v, Ref): return slice_of(ip, st, v)
    return r.root, r.path, ZERO, ip.seq_len(ip.to_seq(v))

def slice_vals(ip, st, r):
    """contents of a slice as a sequence"""
    root, path, a, n = slice_of(ip, st, r)
    v = ip.to_seq(ip.get(st, root, path))
    if a != ZERO: v = ip.seq_split(st, v, a)[1]
    if ip.seq_len(v) != n: v = ip.seq_split(st, v, n)[0]
    return v

def whole(ip, st, r):
    if isinstance(r, Agg): r = ip.as_ref(r)
    v = ip.get(st, r.root, r.path)
    return Ref(r.root, r.path, (ZERO, ip.seq_len(ip.to_seq(v))))

def elem_ref(root, path, i): return Ref(root, path + (('i', i),))

def ptr_compare(ip, st, op, x, y):
    if isinstance(x, Ref) and isinstance(y, Ref):
        if x.root == y.root and x.path == y.path and (op in ('Eq', 'Ne')): return op == 'Eq'
        if x.root == y.root and x.path and y.path and x.path[:-1] == y.path[:-1] and isinstance(x.path[-1], tuple) and isinstance(y.path[-1], tuple) and x.path[-1][0] == 'i':
            return ip.compare(st, op, x.path[-1][1], y.path[-1][1])
        if op in ('Eq', 'Ne') and x.root != y.root: return op == 'Ne'
    if op in ('Eq', 'Ne') and (isinstance(x, Ref) and isinstance(y, Lin) and y == ZERO or isinstance(y, Ref) and isinstance(x, Lin) and x == ZERO):
        return op == 'Ne'
    if isinstance(x, Nat) and isinstance(y, Nat) and x.k == 'str' and y.k == 'str' and op in ('Eq', 'Ne'):
        return (x == y) == (op == 'Eq')
    raise Undecided('comparison of %r and %r' % (x, y))

def ptr_offset(ip, st, p, n):
    if isinstance(p, Agg): p = ip.as_ref(p)
    if not isinstance(p, Ref) or not isinstance(n, Lin): raise Undecided('pointer offset of %r' % (p,))
    if p.path and isinstance(p.path[-1], tuple) and p.path[-1][0] == 'i':
        return Ref(p.root, p.path[:-1] + (('i', p.path[-1][1] + n),))
    if n == ZERO: return p
    raise Undecided('pointer offset')

def ptr_addr(ip, st, v, ty):
    if isinstance(v, Agg): v = ip.as_ref(v)
    if isinstance(v, Lin): return v
    if isinstance(v, Ref):
        if v.path and isinstance(v.path[-1], tuple) and v.path[-1][0] == 'i':
            base = scale(A(atom(('addr', v.root, v.path[:-1]), 58, False, 1, 1 << 56)), 16)
            return base + scale(v.path[-1][1], elem_size(ip, ty) or 1)
        return scale(A(atom(('addr', v.root, v.path), 58, False, 1, 1 << 56)), 16)
    raise Undecided('address of %r' % (v,))

def mk_slice(ip, st, p, n):
    if p.meta is not None: p = Ref(p.root, p.path + (('i', p.meta[0]),))
    if p.path and isinstance(p.path[-1], tuple) and p.path[-1][0] == 'i':
        return Ref(p.root, p.path[:-1], (p.path[-1][1], n))
    if n == ONE or n == ZERO:
        return Ref(p.root, p.path, (ZERO, n))
    v = ip.get(st, p.root, p.path)
    if isinstance(v, (SeqV, Agg)): return Ref(p.root, p.path, (ZERO, n))
    raise Undecided('slice from a pointer to %r' % (v,))

def int_bytes(ip, st, v, w, signed=False, big=False):
    v = ip.as_int(st, v)
    bs = ip.bits(st, v, w, signed) if to_bits(v, w) is None else to_bits(v, w)
    out = [from_bits(bs[i:i + 8]) for i in range(0, w, 8)]
    return out[::-1] if big else out

def bytes_int(ip, st, bs, signed=False):
    """little endian bytes to an integer"""
    bits = []
    for b in bs:
        b = ip.as_int(st, ip.force(b))
        x = to_bits(b, 8)
        if x is None: x = ip.bits(st, b, 8, False)
        bits += x
    return from_bits(bits, signed)

def transmute(ip, st, v, fty, ty):
    T = ip.p.T
    a, b = T[fty], T[ty]
    if b['k'] == 'int' and a['s'].startswith('pattern_type!(%s ' % b['s']) or a['k'] == 'int' and b['s'].startswith('pattern_type!(%s ' % a['s']): return v
    if a['k'] in ('ptr', 'ref', 'fnptr') and b['k'] in ('ptr', 'ref', 'fnptr'): return v
    if isinstance(v, Agg) and b['k'] in ('ptr', 'ref'): return ip.as_ref(v)
    if isinstance(v, Ref) and b['k'] == 'int': return ptr_addr(ip, st, v, fty)
    if isinstance(v, Ref): return v
    if a['k'] == 'array' and b['k'] == 'int' and T[a['of']]['s'] == 'u8':
        s = ip.to_seq(v)
        return bytes_int(ip, st, [ip.seq_get(st, s, K(i)) for i in range(b['bits'] // 8)], b['signed'])
    if a['k'] == 'int' and b['k'] == 'array' and T[b['of']]['s'] == 'u8':
        return Agg(0, tuple(int_bytes(ip, st, v, a['bits'], a['signed'])))
    if a['k'] == 'array' and T[a['of']]['s'] == 'u8' and b['k'] == 'array' and T[b['of']]['k'] == 'int':
        s = ip.to_seq(v)
        w = T[b['of']]['bits'] // 8
        return Agg(0, tuple(bytes_int(ip, st, [ip.seq_get(st, s, K(w * i + j)) for j in range(w)], T[b['of']]['signed']) for i in range(T[fty]['size'] // w)))
    if b['k'] == 'array' and T[b['of']]['s'] == 'u8' and a['k'] == 'array' and T[a['of']]['k'] == 'int':
        s = ip.to_seq(v)
        w = T[a['of']]['bits'] // 8
        return Agg(0, tuple(x for i in range(T[ty]['size'] // w) for x in int_bytes(ip, st, ip.seq_get(st, s, K(i)), 8 * w, T[a['of']]['signed'])))
    if a['k'] in ('int', 'char', 'bool') and b['k'] in ('int', 'char', 'bool'):
        if b['k'] == 'bool': return f_ne0(v)
        return ip.wrap(st, ip.as_int(st, v), ty)
    if a['k'] == 'struct' and b['k'] == 'struct' or a.get('size') == b.get('size') and 'MaybeUninit' in a['s'] + b['s']: return v
    if a['s'] == b['s']: return v
    if a['k'] in ('int',) and b['k'] == 'enum' and b.get('def') == 'std::option::Option' and b['variants'][1]['fields'] and 'NonZero' in T[b['variants'][1]['fields'][0][1]]['s']:
        if st.decide(f_eq0(ip.as_int(st, v))): return NONE
        return some(transmute(ip, st, v, fty, b['variants'][1]['fields'][0][1]))
    # transparent wrappers
    if a['k'] in ('struct', 'tuple') and isinstance(v, Agg) and len([x for x in v.f]) == 1: return transmute(ip, st, ip.force(v.f[0]), ip.field_ty(fty, 0, 0), ty)
    if b['k'] == 'struct' and len(b['variants'][0]['fields']) == 1:
        return Agg(0, (transmute(ip, st, v, fty, ip.field_ty(ty, 0, 0)),))
    if b['k'] == 'enum' and a['k'] == 'int' and not any(x['fields'] for x in b['variants']):
        for i in range(len(b['variants'])):
            if st.decide(f_eq(v, K(ip.p.discr(ty, i)))): return Agg(i, ())
    raise Undecided('transmute %s to %s' % (a['s'], b['s']))

def nat_field(ip, st, v, i):
    raise Undecided('field %s of %r' % (i, v))
def nat_put(ip, st, v, i, x):
    raise Undecided('write field %s of %r' % (i, v))
def nat_discr(ip, st, v, ty):
    if ty is not None and ip.p.T[ty]['k'] == 'enum':
        n = len(ip.p.T[ty]['variants'])
        x = A(atom(('opaque discr', repr(v)), 16, False, 0, n - 1))
        ds = [ip.p.discr(ty, i) for i in range(n)]
        return K(ds[ip.concrete(st, x)])
    raise Undecided('discriminant of %r' % (v,))

def write_span(ip, st, root, path, start, vals):
    """replaces the elements from start on by the sequence vals"""
    old = ip.get(st, root, path)
    n = ip.seq_len(vals)
    if isinstance(old, Agg):
        if n.t:
            # the window may name its length by the bounds it was cut with
            k = next((k for k in range(len(old.f) + 1) if st.facts.holds(f_eq(n, K(k)))), None)
            if k is not None: n = K(k)
        if start == ZERO and n == K(len(old.f)):
            return ip.put(st, root, path, Agg(0, tuple(ip.seq_get(st, vals, K(i)) for i in range(len(old.f)))))
        f = list(old.f)
        if n.t or start.t: raise Undecided('copy of unknown length into an array')
        for i in range(n.c): f[start.c + i] = ip.seq_get(st, vals, K(i))
        return ip.put(st, root, path, Agg(0, tuple(f)))
    s = ip.to_seq(old)
    a, b = ip.seq_split(st, s, start)
    m, e = ip.seq_split(st, b, n)
    ip.put(st, root, path, ip.seq_norm(st, a.segs + vals.segs + e.segs))

def copy_nonoverlapping(ip, st, src, dst, cnt, ty):
    s = mk_slice(ip, st, ip.as_ref(src), cnt)
    d = mk_slice(ip, st, ip.as_ref(dst), cnt)
    st2 = slice_vals(ip, st, s)
    write_span(ip, st, d.root, d.path, d.meta[0], st2)

@intrinsic('copy_nonoverlapping', 'copy')
def _(ip, st, c):
    copy_nonoverlapping(ip, st, c.args[0], c.args[1], c.args[2], None)
    return UNIT
native('std::ptr::copy_nonoverlapping')(INTRINSICS['copy'])

@native('std::ptr::read', 'std::ptr::read_unaligned')
def _(ip, st, c): return rd(ip, st, c.args[0])
@native('std::ptr::write', 'std::ptr::write_unaligned', 'std::ptr::mut_ptr::<impl *mut T>::write')
def _(ip, st, c):
    wr(ip, st, c.args[0], c.args[1])
    return UNIT

@pat(r'core::slice::<impl \[T\]>::len$|std::slice::<impl \[T\]>::len$')
def _(ip, st, c): return slice_of(ip, st, c.args[0])[3]
@pat(r'core::slice::<impl \[T\]>::is_empty$')
def _(ip, st, c): return f_eq0(slice_of(ip, st, c.args[0])[3])
@pat(r'core::slice::<impl \[T\]>::(as_ptr|as_mut_ptr)$')
def _(ip, st, c):
    root, path, a, n = slice_of(ip, st, c.args[0])
    return elem_ref(root, path, a)
@pat(r'std::slice::(from_raw_parts|from_raw_parts_mut|from_ref)$')
def _(ip, st, c):
    if c.f['def'].endswith('from_ref'):
        r = ip.as_ref(c.args[0])
        if r.path and isinstance(r.path[-1], tuple) and r.path[-1][0] == 'i': return Ref(r.root, r.path[:-1], (r.path[-1][1], ONE))
        v = ip.get(st, r.root, r.path, raw=True)
        return Ref(st.alloc(Agg(0, (v,))), (), (ZERO, ONE))
    return mk_slice(ip, st, ip.as_ref(c.args[0]), c.args[1])
@pat(r'core::slice::<impl \[T\]>::(first|last|first_mut|last_mut)$')
def _(ip, st, c):
    root, path, a, n = slice_of(ip, st, c.args[0])
    if st.decide(f_eq0(n)): return NONE
    return some(elem_ref(root, path, a if 'first' in c.f['def'].rsplit('::', 1)[-1] else a + n - ONE))
@pat(r'core::slice::<impl \[T\]>::(split_at|split_at_mut)$')
def _(ip, st, c):
    root, path, a, n = slice_of(ip, st, c.args[0])
    if not st.decide(f_leq(c.args[1], n)): raise PanicEx(panic_text(ip, st, c))
    return Agg(0, (Ref(root, path, (a, c.args[1])), Ref(root, path, (a + c.args[1], n - c.args[1]))))
@pat(r'core::slice::<impl \[T\]>::(split_first)$')
def _(ip, st, c):
    root, path, a, n = slice_of(ip, st, c.args[0])
    if st.decide(f_eq0(n)): return NONE
    return some(Agg(0, (elem_ref(root, path, a), Ref(root, path, (a + ONE, n - ONE)))))

def range_bounds(ip, st, ity, iv, n):
    """(start, end, valid) of an index"""
    d = ip.p.adt(ity)
    if d == 'std::ops::Range': return iv.f[0], iv.f[1]
    if d == 'std::ops::RangeTo': return ZERO, iv.f[0]
    if d == 'std::ops::RangeFrom': return iv.f[0], n
    if d == 'std::ops::RangeFull': return ZERO, n
    if d == 'std::ops::RangeInclusive': return iv.f[0], iv.f[1] + ONE
    if d == 'std::ops::RangeToInclusive': return ZERO, iv.f[0] + ONE
    raise Undecided('index by %s' % ip.p.T[ity]['s'])

def do_index(ip, st, c, ity, iv, base):
    root, path, a, n = slice_of(ip, st, base)
    if isinstance(iv, Sym): iv = Agg(0, tuple(ip.force(ip.sym_child(iv, 0, i)) for i in range(2)))
    if isinstance(iv, Lin):
        if not st.decide(f_lt(iv, n)): return None
        return elem_ref(root, path, a + iv)
    iv = Agg(iv.v, tuple(ip.force(x) for x in iv.f))
    lo, hi = range_bounds(ip, st, ity, iv, n)
    if not st.decide(f_leq(lo, hi)): return None
    if not st.decide(f_leq(hi, n)): return None
    return Ref(root, path, (a + lo, hi - lo))

def _index(ip, st, c):
    # Index::index(&self, idx)
    r = do_index(ip, st, c, c.tys[1], c.args[1], c.args[0])
    if r is None: raise PanicEx(panic_text(ip, st, c))
    return r
def _get(ip, st, c):
    r = do_index(ip, st, c, c.tys[1], c.args[1], c.args[0])
    return NONE if r is None else some(r)
pat(r'core::slice::<impl \[T\]>::(get|get_mut)$')(_get)
pat(r'core::slice::<impl \[T\]>::(get_unchecked|get_unchecked_mut)$')(_index)
pat(r'core::slice::index::<impl std::ops::Index(Mut)?<I> for \[T\]>::index(_mut)?$')(_index)
pat(r'core::array::<impl std::ops::Index(Mut)?<I> for \[T; N\]>::index(_mut)?$')(_index)
pat(r'<std::vec::Vec<T, A> as std::ops::Index(Mut)?<I>>::index(_mut)?$')(_index)
@pat(r'<.* as std::slice::SliceIndex<\[T\]>>::(index|index_mut|get|get_mut|get_unchecked|get_unchecked_mut)$')
def _(ip, st, c):
    d = Call(c.f, (c.args[1], c.args[0]), c.dest, c.target, [c.tys[1], c.tys[0]] if c.tys else None)
    return (_get if c.f['def'].rsplit('::', 1)[-1] in ('get', 'get_mut') else _index)(ip, st, d)

@pat(r'core::slice::<impl \[T\]>::(copy_from_slice|clone_from_slice)$|core::slice::copy_from_slice_impl$')
def _(ip, st, c):
    root, path, a, n = slice_of(ip, st, c.args[0])
    _, _, _, m = slice_of(ip, st, c.args[1])
    if not st.decide(f_eq(n, m)): raise PanicEx(panic_text(ip, st, c))
    write_span(ip, st, root, path, a, slice_vals(ip, st, c.args[1]))
    return UNIT
@pat(r'core::slice::<impl \[T\]>::fill$')
def _(ip, st, c):
    root, path, a, n = slice_of(ip, st, c.args[0])
    write_span(ip, st, root, path, a, SeqV((('R', c.args[1], n),)))
    return UNIT
@pat(r'std::slice::<impl \[T\]>::(to_vec|into_vec|to_vec_in|to_owned)$|<T as std::slice::<impl \[T\]>::to_vec_in::ConvertVec>::to_vec|std::slice::<impl std::borrow::ToOwned for \[T\]>::to_owned')
def _(ip, st, c):
    v = slice_vals(ip, st, c.args[0])
    alloc_event(ip, st, ip.seq_len(v))
    return v
@pat(r'core::slice::<impl \[T\]>::(swap)$')
def _(ip, st, c):
    root, path, a, n = slice_of(ip, st, c.args[0])
    for i in c.args[1:3]:
        if not st.decide(f_lt(i, n)): raise PanicEx(panic_text(ip, st, c))
    x = ip.get(st, root, path + (('i', a + c.args[1]),)); y = ip.get(st, root, path + (('i', a + c.args[2]),))
    ip.put(st, root, path + (('i', a + c.args[1]),), y)
    ip.put(st, root, path + (('i', a + c.args[2]),), x)
    return UNIT
@pat(r'core::slice::<impl \[T\]>::(reverse)$')
def _(ip, st, c):
    root, path, a, n = slice_of(ip, st, c.args[0])
    v = slice_vals(ip, st, c.args[0])
    if n.t: raise Undecided('reverse of unknown length')
    vals = [ip.seq_get(st, v, K(i)) for i in range(n.c)]
    write_span(ip, st, root, path, a, SeqV((('E', tuple(vals[::-1])),)))
    return UNIT

# ---------------------------------------------------------------- equality

def value_eq(ip, st, a, b):
    """structural equality as a formula"""
    a = ip.force(a); b = ip.force(b)
    if a is UNDEF or b is UNDEF: raise Undecided('equality with an undefined value')
    if a is b or (not isinstance(a, (Opaque, SeqV)) and a == b): return True
    if isinstance(a, Lin) and isinstance(b, Lin): return f_eq(a, b)
    if is_formula(a) and is_formula(b): return f_iff(a, b)
    if isinstance(a, Agg) and isinstance(b, Agg):
        if a.v != b.v: return False
        if len(a.f) != len(b.f): raise Undecided('equality of %r and %r' % (a, b))
        return f_and(*[value_eq(ip, st, x, y) for x, y in zip(a.f, b.f)])
    if isinstance(a, (SeqV,)) or isinstance(b, (SeqV,)):
        return seq_eq(ip, st, ip.to_seq(a), ip.to_seq(b))
    if isinstance(a, Sym) and isinstance(b, Sym) and a.ty == b.ty and ip.p.T[a.ty].get('crate') == 'bit_set':
        return set_eq(a, b)
    for x, y in ((a, b), (b, a)):
        if isinstance(x, Sym):
            t = ip.p.T[x.ty]
            if t['k'] == 'struct':
                n = len(t['variants'][0]['fields'])
                x2 = Agg(0, tuple(ip.sym_child(x, 0, i) for i in range(n)))
                return value_eq(ip, st, x2, y)
            if t['k'] == 'enum':
                if isinstance(y, Agg):
                    fs = [f_eq(ip.enum_var(x), K(y.v))]
                    n = len(t['variants'][y.v]['fields'])
                    fs += [value_eq(ip, st, ip.sym_child(x, y.v, i), y.f[i]) for i in range(n)]
                    return f_and(*fs)
                if isinstance(y, Sym):
                    fs = [f_eq(ip.enum_var(x), ip.enum_var(y))]
                    for vi, var in enumerate(t['variants']):
                        e = [value_eq(ip, st, ip.sym_child(x, vi, i), ip.sym_child(y, vi, i)) for i in range(len(var['fields']))]
                        if e: fs.append(f_or(f_not(f_eq(ip.enum_var(x), K(vi))), f_and(*e)))
                    return f_and(*fs)
    if isinstance(a, Nat) and isinstance(b, Nat) and a.k == b.k and len(a.d) == len(b.d):
        return f_and(*[value_eq(ip, st, x, y) if isinstance(x, (Lin, Agg, SeqV, Sym, Nat)) or is_formula(x) else x == y for x, y in zip(a.d, b.d)])
    if isinstance(a, Ref) and isinstance(b, Ref):
        return value_eq(ip, st, ip.get(st, a.root, a.path), ip.get(st, b.root, b.path))
    raise Undecided('equality of %r and %r' % (a, b))

def seq_eq(ip, st, a, b):
    a = ip.seq_norm(st, a.segs); b = ip.seq_norm(st, b.segs)
    if a == b: return True
    la, lb = ip.seq_len(a), ip.seq_len(b)
    fs = [f_eq(la, lb)]
    sa, sb = list(a.segs), list(b.segs)
    if len(sa) == 1 and len(sb) == 1 and sa[0][0] == 'S' and sb[0][0] == 'S' and sa[0] != sb[0] and ip.seg_len(sa[0]).t and ip.seg_len(sb[0]).t:
        if sa[0][1] == sb[0][1] and sa[0][3] == sb[0][3]: return fs[0]
        # the same formula whatever is known about the lengths
        return f_and(fs[0], f_or(f_eq0(la), opaque_eq(SeqV((sa[0],)), SeqV((sb[0],)))))
    while sa and sb:
        x, y = sa[0], sb[0]
        nx, ny = ip.seg_len(x), ip.seg_len(y)
        if x == y:
            sa.pop(0); sb.pop(0)
            continue
        n = None
        if nx == ny: n = nx
        elif st.facts.holds(f_eq(nx, ny)): n = nx
        elif st.facts.holds(f_leq(nx, ny)): n = nx
        elif st.facts.holds(f_leq(ny, nx)): n = ny
        elif x[0] == 'E' or y[0] == 'E':
            # explicit elements against a part of unknown length
            c, m = (nx, ny) if x[0] == 'E' else (ny, nx)
            if st.decide(f_leq(c, m)): n = c
            else: n = K(ip.concrete(st, m, c.c))
        if n is None:
            if len(sa) == 1 and len(sb) == 1 and x[0] == 'S' and y[0] == 'S':
                fs.append(opaque_eq(SeqV((x,)), SeqV((y,))))
                return f_and(*fs)
            raise Undecided('equality of sequences')
        if n.t and (x[0] == 'E' or y[0] == 'E'): n = K(ip.concrete(st, n, max(len(z[1]) for z in (x, y) if z[0] == 'E')))
        px, rx = _seg_cut(x, n); py, ry = _seg_cut(y, n)
        sa.pop(0); sb.pop(0)
        if rx and not st.facts.holds(f_eq0(ip.seg_len(rx))): sa.insert(0, rx)
        if ry and not st.facts.holds(f_eq0(ip.seg_len(ry))): sb.insert(0, ry)
        if px == py: continue
        if not n.t and n.c <= 4096:
            for i in range(n.c): fs.append(value_eq(ip, st, _seg_at(ip, st, px, i), _seg_at(ip, st, py, i)))
        elif px[0] == 'R' and py[0] == 'R': fs.append(f_or(f_eq0(n), value_eq(ip, st, px[1], py[1])))
        elif px[0] in 'SR' and py[0] in 'SR': fs.append(f_or(f_eq0(n), opaque_eq(SeqV((px,)), SeqV((py,)))))
        else: raise Undecided('equality of sequences')
    return f_and(*fs)

def set_eq(a, b):
    """equality of two unknown sets of the external crate: as members, not as representations"""
    ka, kb = sorted((a, b), key=repr)
    return ('p', ('seteq', ka, kb))

@pat(r'<(rtps_rs::)?bit_set::BitSet(<.*>)? as std::cmp::PartialEq>::(eq|ne)$')
def _(ip, st, c):
    a, b = (ip.force(ip.get(st, r.root, r.path)) for r in c.args[:2])
    if not (isinstance(a, Sym) and isinstance(b, Sym)): return Pass(*c.args)
    f = True if a == b else set_eq(a, b)
    return f if c.f['def'].endswith('::eq') else f_not(f)

def opaque_eq(a, b):
    ka, kb = sorted((a, b), key=repr)
    return ('p', ('seqeq', ka, kb))
def _seg_cut(s, n):
    if s[0] == 'E':
        if n.t: raise Undecided('cut of explicit elements')
        return ('E', s[1][:n.c]), ('E', s[1][n.c:])
    if s[0] == 'R': return ('R', s[1], n), ('R', s[1], s[2] - n)
    return ('S', s[1], s[2], s[3], n), ('S', s[1], s[2], s[3] + n, s[4] - n)
def _seg_at(ip, st, s, i):
    if s[0] == 'E': return s[1][i]
    if s[0] == 'R': return s[1]
    return ip.sym_elem(st, s[1], s[2], s[3] + K(i))

def prim(ip, tid):
    return tid is not None and ip.p.T[tid]['k'] in ('int', 'char', 'bool')

def seq_elem_eq_native(ip, st, a, b):
    return seq_eq(ip, st, a, b)

@pat(r'std::array::equality::<impl std::cmp::PartialEq<\[U; N\]> for \[T; N\]>::(eq|ne)$')
def _(ip, st, c):
    t = c.f['args'][0]
    if not prim(ip, t): raise Undecided('equality of arrays of %s' % ip.p.T[t]['s'])
    r = value_eq(ip, st, rd(ip, st, c.args[0]), rd(ip, st, c.args[1]))
    return r if c.f['def'].endswith('eq') else f_not(r)
@pat(r'(std|core)::slice::cmp::<impl std::cmp::PartialEq<\[U\]> for \[T\]>::(eq|ne)$|std::vec::partial_eq::<impl std::cmp::PartialEq<.*>::(eq|ne)$|std::array::equality::<impl std::cmp::PartialEq<.*>::(eq|ne)$')
def _(ip, st, c):
    a, b = slice_vals(ip, st, c.args[0]), slice_vals(ip, st, c.args[1])
    r = seq_eq(ip, st, a, b)
    return r if c.f['def'].endswith('eq') else f_not(r)
@intrinsic('select_unpredictable')
def _(ip, st, c): return c.args[1] if st.decide(c.args[0]) else c.args[2]
@intrinsic('raw_eq')
def _(ip, st, c): return value_eq(ip, st, rd(ip, st, c.args[0]), rd(ip, st, c.args[1]))
@intrinsic('compare_bytes')
def _(ip, st, c):
    n = c.args[2]
    a = slice_vals(ip, st, mk_slice(ip, st, c.args[0], n)); b = slice_vals(ip, st, mk_slice(ip, st, c.args[1], n))
    if st.decide(seq_eq(ip, st, a, b)): return ZERO
    if n.t or n.c > 32: raise Undecided('ordering of byte strings')
    r = lex_cmp(ip, st, [ip.force(ip.seq_get(st, a, K(i))) for i in range(n.c)], [ip.force(ip.seq_get(st, b, K(i))) for i in range(n.c)], {'k': 'int', 'bits': 8, 'signed': False})
    return K(r.v - 1)

def lex_cmp(ip, st, xs, ys, t):
    """Ordering of two lists of integers of one length"""
    if st.decide(f_and(*[f_eq(x, y) for x, y in zip(xs, ys)]) if xs else True): return Agg(1, ())
    if t['k'] == 'int' and not t['signed'] and t['bits'] * len(xs) <= 256:
        # as numbers, the first element most significant
        w = ZERO
        for x, y in zip(xs, ys): w = scale(w, 1 << t['bits']) + x - y
        if st.decide(f_lt(w, ZERO)): return Agg(0, ())
        st.assume(f_lt(ZERO, w))      # 0 only if all digits are equal
        return Agg(2, ())
    for x, y in zip(xs, ys):
        if st.decide(f_eq(x, y)): continue
        return Agg(0, ()) if st.decide(f_lt(x, y)) else Agg(2, ())
    return Agg(1, ())
@pat(r'std::array::<impl std::cmp::Ord for \[T; N\]>::cmp$|std::array::<impl std::cmp::PartialOrd for \[T; N\]>::partial_cmp$')
def _(ip, st, c):
    a, b = ip.to_seq(rd(ip, st, c.args[0])), ip.to_seq(rd(ip, st, c.args[1]))
    if not prim(ip, c.f['args'][0]): raise Undecided('ordering of arrays')
    n = ip.seq_len(a).c
    r = lex_cmp(ip, st, [ip.force(ip.seq_get(st, a, K(i))) for i in range(n)], [ip.force(ip.seq_get(st, b, K(i))) for i in range(n)], ip.p.T[c.f['args'][0]])
    return some(r) if c.f['def'].endswith('partial_cmp') else r

# ---------------------------------------------------------------- Vec and BytesMut

def seq_sym(ip, v):
    ty = ip.elem_ty(v.ty)
    ip.seq_ty[v.key] = ty
    return SeqV((('S', v.key, ty, ZERO, A(atom(v.key + ('len',), 63, False, 0, 1 << 56))),))
SYM_ADT['std::vec::Vec'] = seq_sym
SYM_ADT['bytes::BytesMut'] = SYM_ADT['bytes::Bytes'] = seq_sym
SYM_ADT['bytes::Bytes'] = seq_sym

def alloc_event(ip, st, n, ty=None, why=None):
    sz = ip.p.size(ty) if ty is not None else 1
    fr = st.frames[-1]
    w = next((f.fn['def'] for f in reversed(st.frames) if ip.p.local(f.fn)), fr.fn['def'])
    event(st, 'alloc', scale(n, sz or 1), w)

V = r'std::vec::Vec::<T(, A)?>::'
@pat(V + r'new(_in)?$')
def _(ip, st, c): return SeqV(())
native('<std::vec::Vec<T> as std::default::Default>::default', 'bytes::BytesMut::new', 'bytes::Bytes::new')(lambda ip, st, c: SeqV(()))
@pat(V + r'with_capacity(_in)?$')
def _(ip, st, c):
    n = c.args[0]
    ty = c.f['args'][0]
    if not st.decide(f_leq(scale(n, ip.p.size(ty) or 1), K((1 << 63) - 1))): raise PanicEx('capacity overflow in Vec::with_capacity')
    alloc_event(ip, st, n, ty)
    return SeqV(())
@native('bytes::BytesMut::with_capacity', 'bytes::Bytes::with_capacity')
def _(ip, st, c):
    alloc_event(ip, st, c.args[0])
    return SeqV(())
@pat(V + r'(reserve|reserve_exact|shrink_to_fit|try_reserve)$|bytes::Bytes(?:Mut)?::reserve$')
def _(ip, st, c):
    if len(c.args) > 1: alloc_event(ip, st, c.args[1], c.f['args'][0] if c.f['args'] else None)
    return UNIT if 'try' not in c.f['def'] else ok(UNIT)
@pat(V + r'(push|push_mut|push_within_capacity)$')
def _(ip, st, c):
    s = ip.to_seq(rd(ip, st, c.args[0]))
    wr(ip, st, c.args[0], ip.seq_push(s, c.args[1]))
    if c.f['def'].endswith('push_mut'):
        r = ip.as_ref(c.args[0])
        return elem_ref(r.root, r.path, ip.seq_len(s))
    return UNIT
@pat(V + r'len$|bytes::Bytes(?:Mut)?::len$|<bytes::Bytes(?:Mut)? as bytes::Buf>::remaining$')
def _(ip, st, c): return ip.seq_len(ip.to_seq(rd(ip, st, c.args[0])))
@pat(V + r'capacity$|bytes::Bytes(?:Mut)?::capacity$')
def _(ip, st, c):
    n = ip.seq_len(ip.to_seq(rd(ip, st, c.args[0])))
    x = A(atom(('capacity', n), 63, False, 0, 1 << 62, defs=lambda a: [('le', n - A(a))]))
    return x
@pat(V + r'is_empty$|bytes::Bytes(?:Mut)?::is_empty$|<bytes::Bytes(?:Mut)? as bytes::Buf>::has_remaining$')
def _(ip, st, c):
    r = f_eq0(ip.seq_len(ip.to_seq(rd(ip, st, c.args[0]))))
    return f_not(r) if 'has_' in c.f['def'] else r
@pat(V + r'clear$|bytes::Bytes(?:Mut)?::clear$')
def _(ip, st, c):
    wr(ip, st, c.args[0], SeqV(()))
    return UNIT
@pat(V + r'truncate$|bytes::Bytes(?:Mut)?::truncate$')
def _(ip, st, c):
    s = ip.to_seq(rd(ip, st, c.args[0]))
    if st.decide(f_lt(c.args[1], ip.seq_len(s))):
        wr(ip, st, c.args[0], ip.seq_split(st, s, c.args[1])[0])
    return UNIT
@pat(V + r'set_len$|bytes::Bytes(?:Mut)?::set_len$')
def _(ip, st, c):
    s = ip.to_seq(rd(ip, st, c.args[0]))
    n = ip.seq_len(s)
    if st.decide(f_leq(c.args[1], n)): wr(ip, st, c.args[0], ip.seq_split(st, s, c.args[1])[0])
    else: wr(ip, st, c.args[0], SeqV(s.segs + (('R', UNDEF, c.args[1] - n),)))
    return UNIT
@pat(r'<std::vec::Vec<T, A> as std::ops::Deref(Mut)?>::deref(_mut)?$|<bytes::(BytesMut|Bytes) as std::ops::Deref(Mut)?>::deref(_mut)?$|' + V + r'(as_slice|as_mut_slice)$|bytes::Bytes(?:Mut)?::(as_slice|as_slice_mut)$|'
     r'<bytes::Bytes(?:Mut)? as std::convert::As(Ref|Mut)<\[u8\]>>::as_(ref|mut)$|<bytes::Bytes(?:Mut)? as bytes::Buf>::(chunk|bytes)$|<std::vec::Vec<T, A> as std::(convert::AsRef<\[T\]>|convert::AsMut<\[T\]>|borrow::Borrow<\[T\]>|borrow::BorrowMut<\[T\]>)>::\w+$|<std::vec::Vec<T, A> as std::convert::AsRef.*$')
def _(ip, st, c): return whole(ip, st, c.args[0])
@pat(V + r'(as_ptr|as_mut_ptr)$')
def _(ip, st, c):
    r = ip.as_ref(c.args[0])
    return elem_ref(r.root, r.path, ZERO)
@pat(V + r'(pop)$')
def _(ip, st, c):
    s = ip.to_seq(rd(ip, st, c.args[0]))
    n = ip.seq_len(s)
    if st.decide(f_eq0(n)): return NONE
    a, b = ip.seq_split(st, s, n - ONE)
    v = ip.seq_get(st, s, n - ONE)
    wr(ip, st, c.args[0], a)
    return some(v)
@pat(V + r'(remove|swap_remove)$')
def _(ip, st, c):
    s = ip.to_seq(rd(ip, st, c.args[0]))
    n = ip.seq_len(s)
    i = c.args[1]
    if not st.decide(f_lt(i, n)): raise PanicEx(panic_text(ip, st, c))
    v = ip.seq_get(st, s, i)
    a, b = ip.seq_split(st, s, i)
    _, b = ip.seq_split(st, b, ONE)
    if c.f['def'].endswith('swap_remove'):
        m = ip.seq_len(b)
        if st.decide(f_eq0(m)): segs = a.segs
        else:
            last = ip.seq_get(st, b, m - ONE)
            h, _ = ip.seq_split(st, b, m - ONE)
            segs = a.segs + (('E', (last,)),) + h.segs
    else: segs = a.segs + b.segs
    wr(ip, st, c.args[0], ip.seq_norm(st, segs))
    return v
@pat(V + r'(insert|insert_mut)$')
def _(ip, st, c):
    s = ip.to_seq(rd(ip, st, c.args[0]))
    n = ip.seq_len(s)
    if not st.decide(f_leq(c.args[1], n)): raise PanicEx(panic_text(ip, st, c))
    a, b = ip.seq_split(st, s, c.args[1])
    wr(ip, st, c.args[0], ip.seq_norm(st, a.segs + (('E', (c.args[2],)),) + b.segs))
    return UNIT
@pat(V + r'(extend_from_slice)$|bytes::Bytes(?:Mut)?::extend_from_slice$|<bytes::Bytes(?:Mut)? as bytes::BufMut>::put_slice$')
def _(ip, st, c):
    s = ip.to_seq(rd(ip, st, c.args[0]))
    x = slice_vals(ip, st, c.args[1])
    wr(ip, st, c.args[0], ip.seq_norm(st, s.segs + x.segs))
    return UNIT
@pat(V + r'append$')
def _(ip, st, c):
    s = ip.to_seq(rd(ip, st, c.args[0])); x = ip.to_seq(rd(ip, st, c.args[1]))
    wr(ip, st, c.args[0], ip.seq_norm(st, s.segs + x.segs))
    wr(ip, st, c.args[1], SeqV(()))
    return UNIT
@pat(V + r'(resize)$')
def _(ip, st, c):
    s = ip.to_seq(rd(ip, st, c.args[0]))
    n = ip.seq_len(s)
    if st.decide(f_leq(c.args[1], n)): wr(ip, st, c.args[0], ip.seq_split(st, s, c.args[1])[0])
    else:
        alloc_event(ip, st, c.args[1], c.f['args'][0])
        wr(ip, st, c.args[0], ip.seq_norm(st, s.segs + (('R', c.args[2], c.args[1] - n),)))
    return UNIT
@native('std::vec::from_elem', '<T as std::vec::spec_from_elem::SpecFromElem>::from_elem')
def _(ip, st, c):
    n = c.args[1]
    alloc_event(ip, st, n, c.f['args'][0])
    if not n.t and n.c <= 4096: return SeqV((('E', (c.args[0],) * n.c),)) if n.c else SeqV(())
    return SeqV((('R', c.args[0], n),))
@native('<std::vec::Vec<T, A> as std::clone::Clone>::clone', '<bytes::BytesMut as std::clone::Clone>::clone', '<bytes::Bytes as std::clone::Clone>::clone')
def _(ip, st, c):
    v = ip.to_seq(rd(ip, st, c.args[0]))
    alloc_event(ip, st, ip.seq_len(v), c.f['args'][0] if c.f['args'] else None)
    return v
@pat(r'<std::vec::Vec<T> as std::convert::From<&\[T\]>>::from$|<std::vec::Vec<T> as std::convert::From<\[T; N\]>>::from$|<bytes::Bytes(?:Mut)? as std::convert::From<&.*\[u8\]>>::from$')
def _(ip, st, c):
    v = slice_vals(ip, st, c.args[0]) if isinstance(c.args[0], Ref) else ip.to_seq(c.args[0])
    alloc_event(ip, st, ip.seq_len(v), c.f['args'][0] if c.f['args'] else None)
    return v

def drill(v):
    """the value inside of MaybeUninit, ManuallyDrop and the like"""
    while isinstance(v, Agg) and len(v.f) >= 1:
        d = [x for x in v.f if x is not UNDEF]
        if len(v.f) > 1 and len(d) == 1 and v.f[0] is UNDEF: v = d[0]; continue
        break
    return v
@native('std::boxed::box_assume_init_into_vec_unsafe')
def _(ip, st, c):
    r = ip.as_ref(c.args[0])
    v = ip.get(st, r.root, r.path)
    n = None
    t = ip.p.T[c.tys[0]] if c.tys else None
    v = unwrap_array(ip, v, c)
    alloc_event(ip, st, K(len(v.f)))
    return ip.to_seq(v)
def fits(ip, v, ty, depth=0):
    """the value has the shape of the type"""
    t = ip.p.T[ty]
    if isinstance(v, Sym): return v.ty == ty
    k = t['k']
    if k in ('int', 'char', 'float'): return isinstance(v, Lin)
    if k == 'bool': return not isinstance(v, Agg)
    if k in ('struct', 'tuple', 'enum', 'array'):
        if not isinstance(v, Agg): return k == 'array' and isinstance(v, SeqV) or k == 'struct' and not any(x in t['s'] for x in ('MaybeUninit', 'ManuallyDrop')) and isinstance(v, SeqV)
        if depth > 3: return True
        if k == 'array': return len(v.f) == t['n'] and all(fits(ip, x, t['of'], depth + 1) for x in v.f[:1])
        fs = [f for f in t['of']] if k == 'tuple' else [f[1] for f in t['variants'][v.v or 0]['fields']]
        return len(fs) == len(v.f) and all(x is UNDEF or fits(ip, x, y, depth + 1) for x, y in zip(v.f, fs))
    return True
def unwrap_array(ip, v, c):
    for _ in range(6):
        if isinstance(v, Agg) and len(v.f) == 2 and v.f[0] is UNDEF: v = v.f[1]
        else: break
    n = next((int(a[5:] if a.startswith('const') else a) for a in c.f['args'] if isinstance(a, str) and a.lstrip('const').isdigit()), None)
    ty = next((a for a in c.f['args'] if isinstance(a, int)), None)
    while n is not None and isinstance(v, Agg) and len(v.f) == 1:
        if n == 1 and (ty is None or fits(ip, v.f[0], ty)): break
        if not isinstance(v.f[0], Agg): break
        v = v.f[0]
    return v
@native('std::boxed::box_new_uninit', 'std::boxed::Box::<T>::new_uninit')
def _(ip, st, c): return Ref(st.alloc(UNDEF))
@native('std::boxed::Box::<T>::new', 'std::boxed::box_new')
def _(ip, st, c): return Ref(st.alloc(c.args[0]))
@pat(r'std::boxed::Box::<T(, A)?>::(into_raw|from_raw|leak|as_mut_ptr|as_ptr)$|std::boxed::Box::<std::mem::MaybeUninit<T>.*>::assume_init$')
def _(ip, st, c): return c.args[0]
@pat(r'std::mem::MaybeUninit::<T>::(assume_init)$')
def _(ip, st, c): return drill(c.args[0])
@pat(r'std::mem::MaybeUninit::<T>::uninit$')
def _(ip, st, c): return UNDEF
@native('std::mem::replace')
def _(ip, st, c):
    v = rd(ip, st, c.args[0])
    wr(ip, st, c.args[0], c.args[1])
    return v
@native('std::mem::swap')
def _(ip, st, c):
    a, b = rd(ip, st, c.args[0]), rd(ip, st, c.args[1])
    wr(ip, st, c.args[0], b); wr(ip, st, c.args[1], a)
    return UNIT
native('std::mem::drop', 'std::mem::forget')(lambda ip, st, c: UNIT)
@native('std::mem::size_of')
def _(ip, st, c): return K(ip.p.size(c.f['args'][0]))
@intrinsic('size_of')
def _(ip, st, c): return K(ip.p.size(c.f['args'][0]))

# BytesMut cutting
@native('bytes::BytesMut::split_to', 'bytes::Bytes::split_to')
def _(ip, st, c):
    s = ip.to_seq(rd(ip, st, c.args[0]))
    if not st.decide(f_leq(c.args[1], ip.seq_len(s))): raise PanicEx(panic_text(ip, st, c))
    a, b = ip.seq_split(st, s, c.args[1])
    wr(ip, st, c.args[0], b)
    return a
@native('bytes::BytesMut::split_off', 'bytes::Bytes::split_off')
def _(ip, st, c):
    s = ip.to_seq(rd(ip, st, c.args[0]))
    # the upper bound is the capacity; beyond the length the contents would be uninitialised
    if not st.decide(f_leq(c.args[1], ip.seq_len(s))): raise PanicEx(panic_text(ip, st, c))
    a, b = ip.seq_split(st, s, c.args[1])
    wr(ip, st, c.args[0], a)
    return b
@native('bytes::BytesMut::split', 'bytes::Bytes::split')
def _(ip, st, c):
    s = ip.to_seq(rd(ip, st, c.args[0]))
    wr(ip, st, c.args[0], SeqV(()))
    return s
@pat(r'<bytes::Bytes(?:Mut)? as bytes::Buf>::advance$')
def _(ip, st, c):
    s = ip.to_seq(rd(ip, st, c.args[0]))
    if not st.decide(f_leq(c.args[1], ip.seq_len(s))): raise PanicEx(panic_text(ip, st, c))
    wr(ip, st, c.args[0], ip.seq_split(st, s, c.args[1])[1])
    return UNIT
native('bytes::BytesMut::freeze')(lambda ip, st, c: c.args[0])
@pat(r'<bytes::Bytes(?:Mut)? as bytes::Buf>::get_(u8|u16|u32|i32|u16_le|u32_le|i32_le)$')
def _(ip, st, c):
    k = c.f['def'].rsplit('get_', 1)[-1]
    big = not k.endswith('_le')
    k = k.replace('_le', '')
    n = int(k[1:]) // 8
    s = ip.to_seq(rd(ip, st, c.args[0]))
    if not st.decide(f_leq(K(n), ip.seq_len(s))): raise PanicEx(panic_text(ip, st, c))
    bs = [ip.seq_get(st, s, K(i)) for i in range(n)]
    wr(ip, st, c.args[0], ip.seq_split(st, s, K(n))[1])
    return bytes_int(ip, st, bs[::-1] if big else bs, k[0] == 'i')

# ---------------------------------------------------------------- iterators

def iter_val(root, path, a, e, byval=False):
    return Nat('iter', root, path, a, e, byval)

@pat(r'core::slice::<impl \[T\]>::(iter|iter_mut)$|std::slice::Iter(Mut)?::<\'a, T>::new$')
def _(ip, st, c):
    root, path, a, n = slice_of(ip, st, c.args[0])
    return iter_val(root, path, a, a + n)
@pat(r'core::slice::iter::<impl std::iter::IntoIterator for &\'a (mut )?\[T\]>::into_iter$|<&\'a (mut )?std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter$|std::array::<impl std::iter::IntoIterator for &\'a (mut )?\[T; N\]>::into_iter$')
def _(ip, st, c):
    root, path, a, n = slice_of(ip, st, c.args[0])
    return iter_val(root, path, a, a + n)
@pat(r'<std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter$|std::array::iter::<impl std::iter::IntoIterator for \[T; N\]>::into_iter$|std::array::<impl std::iter::IntoIterator for \[T; N\]>::into_iter$')
def _(ip, st, c):
    s = ip.to_seq(c.args[0])
    r = st.alloc(s)
    return iter_val(r, (), ZERO, ip.seq_len(s), True)
@pat(V + r'drain$')
def _(ip, st, c):
    s = ip.to_seq(rd(ip, st, c.args[0]))
    n = ip.seq_len(s)
    lo, hi = range_bounds(ip, st, c.tys[1], c.args[1], n)
    if not (st.decide(f_leq(lo, hi)) and st.decide(f_leq(hi, n))): raise PanicEx(panic_text(ip, st, c))
    a, b = ip.seq_split(st, s, lo)
    m, b = ip.seq_split(st, b, hi - lo)
    wr(ip, st, c.args[0], ip.seq_norm(st, a.segs + b.segs))
    r = st.alloc(m)
    return iter_val(r, (), ZERO, hi - lo, True)

def _slice_iter(ip, st, ty, var, ops):
    """an iterator built from its parts where the library's constructor was inlined"""
    p, e = ops[0], ops[1]
    while isinstance(p, Agg) and len(p.f) == 1: p = ip.force(p.f[0])
    if isinstance(p, Ref) and isinstance(e, Ref) and p.path and e.path and p.root == e.root and p.path[:-1] == e.path[:-1] and p.path[-1][0] == e.path[-1][0] == 'i':
        return iter_val(p.root, p.path[:-1], p.path[-1][1], e.path[-1][1])
    return Agg(var, ops)
AGG_ADT['std::slice::Iter'] = AGG_ADT['std::slice::IterMut'] = _slice_iter

def iter_next(ip, st, ref, back=False):
    v = rd(ip, st, ref)
    if not (isinstance(v, Nat) and v.k == 'iter'): raise Undecided('next of %r' % (v,))
    root, path, a, e, byval = v.d
    if not st.decide(f_lt(a, e)): return NONE
    i = e - ONE if back else a
    x = ip.get(st, root, path + (('i', i),)) if byval else elem_ref(root, path, i)
    wr(ip, st, ref, iter_val(root, path, a, e - ONE, byval) if back else iter_val(root, path, a + ONE, e, byval))
    return some(x)

IT = r'<(std::slice::Iter(Mut)?<\'a, T>|std::vec::IntoIter<T, A>|std::array::IntoIter<T, N>|std::vec::Drain<\'_, T, A>) as '
pat(IT + r'std::iter::Iterator>::next$')(lambda ip, st, c: iter_next(ip, st, c.args[0]))
pat(IT + r'std::iter::DoubleEndedIterator>::next_back$')(lambda ip, st, c: iter_next(ip, st, c.args[0], True))
@pat(IT + r'(std::iter::Iterator>::(size_hint|count)|std::iter::ExactSizeIterator>::len)$')
def _(ip, st, c):
    v = rd(ip, st, c.args[0]) if isinstance(c.args[0], Ref) else c.args[0]
    n = v.d[3] - v.d[2]
    return Agg(0, (n, some(n))) if c.f['def'].endswith('size_hint') else n
@pat(IT + r'std::iter::Iterator>::nth$')
def _(ip, st, c):
    v = rd(ip, st, c.args[0])
    root, path, a, e, byval = v.d
    n = c.args[1]
    if not st.decide(f_lt(a + n, e)):
        wr(ip, st, c.args[0], iter_val(root, path, e, e, byval))
        return NONE
    x = ip.get(st, root, path + (('i', a + n),)) if byval else elem_ref(root, path, a + n)
    wr(ip, st, c.args[0], iter_val(root, path, a + n + ONE, e, byval))
    return some(x)
@pat(IT + r'std::iter::Iterator>::last$')
def _(ip, st, c):
    root, path, a, e, byval = c.args[0].d
    if not st.decide(f_lt(a, e)): return NONE
    return some(ip.get(st, root, path + (('i', e - ONE),)) if byval else elem_ref(root, path, e - ONE))
@pat(r'<std::slice::Iter<\'_?a?, T> as std::clone::Clone>::clone$')
def _(ip, st, c): return rd(ip, st, c.args[0])

# loops of iterator methods, as small programs over next()

class Synth:
    """assembles the MIR of a loop"""
    def __init__(self, name, argc):
        self.name = name
        self.argc = argc
        self.blocks = []
        self.n = argc + 1
    def local(self):
        self.n += 1
        return self.n - 1
    def block(self, s, t):
        self.blocks.append({'s': s, 't': t})
        return len(self.blocks) - 1
    def fn(self, ip):
        return {'id': None, 'name': self.name, 'def': self.name, 'kind': 'synthetic', 'args': [], 'argc': self.argc,
                'locals': [ip.p.usize] * self.n, 'blocks': self.blocks}

def _cp(l): return ['cp', [l]]
def nat_next(ip, st, args, fr, t):
    return iter_next(ip, st, args[0])
def nat_call(fty):
    def h(ip, st, args, fr, t):
        droot, dpath, _ = ip.place(st, fr, t[3])
        ip.call_value(st, fty, args[0], args[1:], (droot, dpath), t[4])
        return NotImplemented
    return h
def const_op(v):
    return ['nv', v]

_synth = {}
def synth(ip, key, make):
    k = (id(ip.p), key)
    f = _synth.get(k)
    if f is None: f = _synth[k] = make()
    return f

def run_synth(ip, st, c, f, args):
    ip.push(st, f, args, c.dest, c.target)
    return NotImplemented

def nat_next_back(ip, st, args, fr, t):
    return iter_next(ip, st, args[0], True)

def _loop(ip, name, argc, self_is_ref, fty, mk, back=False):
    """common shape: while let Some(x) = next() { mk(...) }"""
    s = Synth(name, argc)
    it = s.local(); opt = s.local(); var = s.local(); x = s.local()
    first = [['=', [it], ['use', _cp(1)]] if self_is_ref else ['=', [it], ['ref', 'mut', [1]]]]
    b0 = s.block([], ['goto', 1])
    b1 = s.block(first, ['call', ['nat', nat_next_back if back else nat_next], [_cp(it)], [opt], 2])
    b2 = s.block([['=', [var], ['variant', [opt]]]], ['switch', _cp(var), [['0', 3]], 4])
    mk(s, it, opt, x)
    return s.fn(ip)

@pat(IT + r'std::iter::Iterator>::fold$')
def _(ip, st, c):
    fty = c.f['args'][-1]
    def make():
        def mk(s, it, opt, x):
            s.block([['=', [0], ['use', _cp(2)]]], ['ret'])                                   # 3
            r = s.local()
            s.block([['=', [x], ['use', ['cp', [opt, ['d', 1], ['f', 0, None]]]]], ['=', [r], ['ref', 'mut', [3]]]],
                    ['call', ['nat', nat_call(fty)], [_cp(r), _cp(2), _cp(x)], [2], 1])       # 4
        return _loop(ip, 'fold over a slice', 3, False, fty, mk)
    return run_synth(ip, st, c, synth(ip, ('fold', fty), make), c.args)

@pat(IT + r'std::iter::Iterator>::for_each$')
def _(ip, st, c):
    fty = c.f['args'][-1]
    def make():
        def mk(s, it, opt, x):
            s.block([['=', [0], ['agg', 'tuple', None, 0, []]]], ['ret'])
            r = s.local(); u = s.local()
            s.block([['=', [x], ['use', ['cp', [opt, ['d', 1], ['f', 0, None]]]]], ['=', [r], ['ref', 'mut', [2]]]],
                    ['call', ['nat', nat_call(fty)], [_cp(r), _cp(x)], [u], 1])
        return _loop(ip, 'for_each over a slice', 2, False, fty, mk)
    return run_synth(ip, st, c, synth(ip, ('for_each', fty), make), c.args)

@pat(IT + r'std::iter::Iterator>::try_fold$')
def _(ip, st, c):
    fty = c.f['args'][-2]
    rty = c.f['args'][-1]
    if 'call' in ip.p.T[rty]['s'] or ip.p.T[rty]['k'] not in ('enum', 'struct'): fty, rty = [a for a in c.f['args'] if ip.p.T[a]['k'] in ('closure', 'fndef')][-1], c.f['locals'][0]
    name = ip.p.T[rty].get('def')
    go = {'std::option::Option': 1, 'std::result::Result': 0, 'std::ops::ControlFlow': 0}.get(name)
    if go is None: raise Undecided('try_fold into %s' % name)
    def make():
        def mk(s, it, opt, x):
            s.block([['=', [0], ['agg', 'some', None, go, [_cp(2)]]]], ['ret'])                # 3
            r = s.local(); v = s.local()
            s.block([['=', [x], ['use', ['cp', [opt, ['d', 1], ['f', 0, None]]]]], ['=', [r], ['ref', 'mut', [3]]]],
                    ['call', ['nat', nat_call(fty)], [_cp(r), _cp(2), _cp(x)], [0], 5])       # 4
            s.block([['=', [v], ['variant', [0]]]], ['switch', _cp(v), [[str(go), 6]], 7])     # 5
            s.block([['=', [2], ['use', ['cp', [0, ['d', go], ['f', 0, None]]]]]], ['goto', 1])  # 6
            s.block([], ['ret'])                                                              # 7
        return _loop(ip, 'try_fold', 3, True, fty, mk)
    return run_synth(ip, st, c, synth(ip, ('try_fold', fty, rty), make), c.args)

def _const(ip, ty, v): return ['k', ty, v]
def search(kind):
    def h(ip, st, c):
        fty = c.f['args'][-1]
        def make():
            T = _const(ip, ip.p.bool, ['i', '1']); F = _const(ip, ip.p.bool, ['i', '0'])
            def mk(s, it, opt, x):
                end = {'any': ['=', [0], ['use', F]], 'all': ['=', [0], ['use', T]]}.get(kind, ['=', [0], ['agg', 'adt_none', None, 0, []]])
                s.block([end], ['ret'])                                                       # 3
                r = s.local(); b = s.local(); xr = s.local(); cnt = s.local()
                if kind in ('find', 'rfind'): pre = [['=', [xr], ['ref', 'not', [x]]]]
                else: pre = [['=', [xr], ['use', _cp(x)]]]
                s.block([['=', [x], ['use', ['cp', [opt, ['d', 1], ['f', 0, None]]]]]] + pre + [['=', [r], ['ref', 'mut', [2]]]],
                        ['call', ['nat', nat_call(fty)], [_cp(r), _cp(xr)], [b], 5])          # 4
                if kind == 'any':
                    s.block([], ['switch', _cp(b), [['0', 1]], 6])
                    s.block([['=', [0], ['use', T]]], ['ret'])
                elif kind == 'all':
                    s.block([], ['switch', _cp(b), [['0', 6]], 1])
                    s.block([['=', [0], ['use', F]]], ['ret'])
                elif kind in ('find', 'rfind'):
                    s.block([], ['switch', _cp(b), [['0', 1]], 6])
                    s.block([['=', [0], ['agg', 'some', None, 1, [_cp(x)]]]], ['ret'])
                elif kind == 'find_map':
                    v = s.local()
                    s.block([['=', [v], ['variant', [b]]]], ['switch', _cp(v), [['0', 1]], 6])
                    s.block([['=', [0], ['use', _cp(b)]]], ['ret'])
                elif kind in ('position', 'rposition'):
                    # the index is kept in the iterator value itself
                    s.block([], ['switch', _cp(b), [['0', 1]], 6])
                    s.block([], ['call', ['nat', nat_rpos if kind == 'rposition' else nat_pos], [_cp(it), _cp(3)], [0], 7])
                    s.block([], ['ret'])
            argc = 3 if kind in ('position', 'rposition') else 2
            fn = _loop(ip, '%s over a slice' % kind, argc, True, fty, mk, kind[0] == 'r')
            fn['locals'] = list(fn['locals'])
            # switch on the answer of the closure
            for i, b in enumerate(fn['blocks']):
                pass
            return fn
        args = c.args
        if kind in ('position', 'rposition'):
            v = rd(ip, st, c.args[0])
            args = (c.args[0], c.args[1], v.d[2])
        return run_synth(ip, st, c, synth(ip, (kind, fty), make), args)
    return h
def nat_pos(ip, st, args, fr, t):
    v = rd(ip, st, args[0])
    return some(v.d[2] - ONE - args[1])
def nat_rpos(ip, st, args, fr, t):
    v = rd(ip, st, args[0])
    return some(v.d[3] - args[1])
for _k in ('any', 'all', 'find', 'find_map', 'position', 'rposition'):
    pat(IT + r'std::iter::Iterator>::%s$' % _k)(search(_k))
pat(IT + r'std::iter::DoubleEndedIterator>::rfind$')(search('rfind'))
@pat(IT + r'std::iter::Iterator>::__iterator_get_unchecked$')
def _(ip, st, c):
    v = rd(ip, st, c.args[0])
    if not (isinstance(v, Nat) and v.k == 'iter'): raise Undecided('element of %r' % (v,))
    root, path, a, e, byval = v.d
    return ip.get(st, root, path + (('i', a + c.args[1]),)) if byval else elem_ref(root, path, a + c.args[1])

def nat_next_of(ity):
    """next() of an iterator of any type"""
    def h(ip, st, args, fr, t):
        r = ip.as_ref(args[0])
        v = ip.get(st, r.root, r.path)
        if isinstance(v, Nat) and v.k == 'iter': return iter_next(ip, st, args[0])
        f = ip.p.next_of.get(ity)
        if f is None:
            f = ip.p.by_name.get('<%s as std::iter::Iterator>::next' % norm(ip.p.T[ity]['s']))
            f = f['id'] if f and 'blocks' in f else None
        if f is None: raise Undecided('next of %s' % ip.p.T[ity]['s'])
        droot, dpath, _ = ip.place(st, fr, t[3])
        ip.push(st, ip.p.F[f], (r,), (droot, dpath), t[4])
        return NotImplemented
    return h
# sorting and removing repetitions, for a length that is known on the path
def _pair(fty, a, b=None):
    """calls the closure (argument 1) with references to two elements of the slice (argument 2)"""
    def h(ip, st, args, fr, t):
        root, path, at, n = slice_of(ip, st, args[1])
        droot, dpath, _ = ip.place(st, fr, t[3])
        x = K(b) if b is not None else args[2]
        ip.call_value(st, fty, args[0], (elem_ref(root, path, at + K(a)), elem_ref(root, path, at + x)), (droot, dpath), t[4])
        return NotImplemented
    return h
def _swap(a, b):
    def h(ip, st, args, fr, t):
        root, path, at, n = slice_of(ip, st, args[0])
        p, q = path + (('i', at + K(a)),), path + (('i', at + K(b)),)
        x, y = ip.get(st, root, p), ip.get(st, root, q)
        ip.put(st, root, p, y)
        ip.put(st, root, q, x)
        return UNIT
    return h
@pat(r'(std|core)::slice::stable_sort$|(std|core)::slice::sort::(stable|unstable)::sort$')
def _(ip, st, c):
    fty = c.f['args'][1]
    n = ip.concrete(st, slice_of(ip, st, c.args[0])[3], 8)
    byref = isinstance(c.tys[1], int) and ip.p.T[c.tys[1]]['k'] == 'ref' and ip.p.T[fty]['k'] != 'ref'
    def make():
        s = Synth('sort', 2)
        r = s.local(); b = s.local(); u = s.local()
        s.block([['=', [r], ['use', _cp(2)] if byref else ['ref', 'mut', [2]]]], ['goto', 1])
        at = 1
        for j in range(1, n):
            end = at + 3 * j
            for i in range(j, 0, -1):
                s.block([], ['call', ['nat', _pair(fty, i, i - 1)], [_cp(r), _cp(1)], [b], at + 1])
                s.block([], ['switch', _cp(b), [['0', end]], at + 2])
                s.block([], ['call', ['nat', _swap(i, i - 1)], [_cp(1)], [u], at + 3])
                at += 3
        s.block([['=', [0], ['agg', 'tuple', None, 0, []]]], ['ret'])
        return s.fn(ip)
    return run_synth(ip, st, c, synth(ip, ('sort', fty, n, byref), make), c.args)
@pat(r'(std::vec::)?Vec::<.*>::dedup_by$')
def _(ip, st, c):
    fty = c.f['args'][-1]
    n = ip.concrete(st, slice_of(ip, st, c.args[0])[3], 8)
    def keep(i):
        def h(ip, st, args, fr, t):
            root, path, at, _ = slice_of(ip, st, args[0])
            w = args[1] + ONE
            if w != K(i): ip.put(st, root, path + (('i', w),), ip.get(st, root, path + (('i', K(i)),)))
            return w
        return h
    def trunc(ip, st, args, fr, t):
        s = ip.to_seq(rd(ip, st, args[0]))
        wr(ip, st, args[0], ip.seq_split(st, s, args[1] + ONE)[0])
        return UNIT
    def make():
        s = Synth('dedup', 2)
        r = s.local(); w = s.local(); b = s.local(); u = s.local()
        s.block([['=', [r], ['ref', 'mut', [2]]], ['=', [w], ['use', ['nv', ZERO]]]], ['goto', 1])
        at = 1
        for i in range(1, n):
            s.block([], ['call', ['nat', _pair(fty, i)], [_cp(r), _cp(1), _cp(w)], [b], at + 1])
            s.block([], ['switch', _cp(b), [['0', at + 2]], at + 3])
            s.block([], ['call', ['nat', keep(i)], [_cp(1), _cp(w)], [w], at + 3])
            at += 3
        if n: s.block([], ['call', ['nat', trunc], [_cp(1), _cp(w)], [u], at + 1])
        s.block([['=', [0], ['agg', 'tuple', None, 0, []]]], ['ret'])
        return s.fn(ip)
    return run_synth(ip, st, c, synth(ip, ('dedup', fty, n), make), c.args)
@pat(r'(std|core)::hint::select_unpredictable$')
def _(ip, st, c): return c.args[1] if st.decide(c.args[0]) else c.args[2]

def next_fn(ip, ity):
    """next() as a function of its own"""
    s = Synth('next', 1)
    s.block([], ['call', ['nat', nat_next_of(ity)], [_cp(1)], [0], 1])
    s.block([], ['ret'])
    return s.fn(ip)
def nat_append(ip, st, args, fr, t):
    s = ip.to_seq(rd(ip, st, args[0]))
    s = ip.seq_push(s, args[1])
    wr(ip, st, args[0], s)
    return UNIT

def extend_loop(ip, ity, name):
    """for x in iterator (argument 2) { vector behind argument 1 .push(x) }"""
    s = Synth(name, 2)
    it = s.local(); opt = s.local(); var = s.local(); x = s.local(); u = s.local()
    s.block([], ['goto', 1])
    s.block([['=', [it], ['ref', 'mut', [2]]]], ['call', ['nat', nat_next_of(ity)], [_cp(it)], [opt], 2])
    s.block([['=', [var], ['variant', [opt]]]], ['switch', _cp(var), [['0', 3]], 4])
    s.block([['=', [0], ['agg', 'tuple', None, 0, []]]], ['ret'])
    s.block([['=', [x], ['use', ['cp', [opt, ['d', 1], ['f', 0, None]]]]]], ['call', ['nat', nat_append], [_cp(1), _cp(x)], [u], 1])
    return s.fn(ip)

def collect_loop(ip, ity):
    s = Synth('collect', 1)
    vec = s.local(); it = s.local(); opt = s.local(); var = s.local(); x = s.local(); u = s.local(); vr = s.local()
    s.block([['=', [vec], ['use', ['nv', SeqV(())]]], ['=', [vr], ['ref', 'mut', [vec]]]], ['goto', 1])
    s.block([['=', [it], ['ref', 'mut', [1]]]], ['call', ['nat', nat_next_of(ity)], [_cp(it)], [opt], 2])
    s.block([['=', [var], ['variant', [opt]]]], ['switch', _cp(var), [['0', 3]], 4])
    s.block([['=', [0], ['use', _cp(vec)]]], ['ret'])
    s.block([['=', [x], ['use', ['cp', [opt, ['d', 1], ['f', 0, None]]]]]], ['call', ['nat', nat_append], [_cp(vr), _cp(x)], [u], 1])
    return s.fn(ip)

def window(ip, st, it):
    s = ip.to_seq(ip.get(st, it.d[0], it.d[1]))
    s = ip.seq_split(st, s, it.d[2])[1]
    return ip.seq_split(st, s, it.d[3] - it.d[2])[0]

@pat(V + r'(extend_trusted|extend_desugared)$|<std::vec::Vec<.*> as std::vec::spec_extend::SpecExtend<.*>>::spec_extend$|alloc::vec::spec_extend::.*::spec_extend$')
def _(ip, st, c):
    it = c.args[1]
    ity = c.tys[1]
    if isinstance(it, Nat) and it.k == 'iter' and it.d[4]:
        s = ip.to_seq(rd(ip, st, c.args[0]))
        wr(ip, st, c.args[0], ip.seq_norm(st, s.segs + window(ip, st, it).segs))
        return UNIT
    if 'SpecExtend<&' in c.f['def']:
        # extending by references copies the elements
        if not (isinstance(it, Nat) and it.k == 'iter'): raise Undecided('extend by references')
        s = ip.to_seq(rd(ip, st, c.args[0]))
        wr(ip, st, c.args[0], ip.seq_norm(st, s.segs + window(ip, st, it).segs))
        return UNIT
    return run_synth(ip, st, c, synth(ip, ('extend', ity), lambda: extend_loop(ip, ity, 'extend')), c.args[:2])

@pat(r'<std::vec::Vec<.*> as std::vec::spec_from_iter(_nested)?::SpecFromIter(Nested)?<.*>>::from_iter$|std::vec::in_place_collect::<impl std::vec::spec_from_iter::SpecFromIter<.*> for .*>::from_iter$|std::vec::in_place_collect::from_iter_in_place$')
def _(ip, st, c):
    it = c.args[0]
    ity = c.tys[0]
    if isinstance(it, Nat) and it.k == 'iter' and it.d[4]: return window(ip, st, it)
    return run_synth(ip, st, c, synth(ip, ('collect', ity), lambda: collect_loop(ip, ity)), c.args[:1])

@pat(V + r'(retain|retain_mut)$')
def _(ip, st, c):
    fty = c.f['args'][-1]
    import loops
    return loops.retain(ip, st, c, fty)

# ---------------------------------------------------------------- integers

def bop(op):
    def h(ip, st, c):
        ty = c.tys[0]
        x, y = c.args
        z = ip.arith(st, op, x, y, ty)
        if st.decide(ip.in_range(z, ty)): return some(z)
        return NONE
    return h
for _o, _n in (('Add', 'add'), ('Sub', 'sub'), ('Mul', 'mul')):
    pat(r'core::num::<impl \w+>::checked_%s$' % _n)(bop(_o))
@pat(r'core::num::<impl \w+>::checked_(div|rem)$')
def _(ip, st, c):
    ty = c.tys[0]
    x, y = c.args
    if st.decide(f_eq0(y)): return NONE
    lo, hi = ip.trange(ty)
    if lo < 0 and st.decide(f_and(f_eq(x, K(lo)), f_eq(y, K(-1)))): return NONE
    return some(ip.binop(st, 'Div' if c.f['def'].endswith('div') else 'Rem', x, y, ty))
@pat(r'core::num::<impl \w+>::checked_neg$')
def _(ip, st, c):
    z = -c.args[0]
    return some(z) if st.decide(ip.in_range(z, c.tys[0])) else NONE
def _wrapping(op):
    def h(ip, st, c):
        return ip.wrap(st, ip.arith(st, op, c.args[0], c.args[1], c.tys[0]), c.tys[0])
    return h
def _sat(op):
    def h(ip, st, c):
        ty = c.tys[0]
        z = ip.arith(st, op, c.args[0], c.args[1], ty)
        lo, hi = ip.trange(ty)
        if not st.decide(f_leq(K(lo), z)): return K(lo)
        if not st.decide(f_leq(z, K(hi))): return K(hi)
        return z
    return h
def _ovf(op):
    def h(ip, st, c):
        ty = c.tys[0]
        z = ip.arith(st, op, c.args[0], c.args[1], ty)
        r = ip.in_range(z, ty)
        if st.decide(r): return Agg(0, (z, False))
        return Agg(0, (ip.wrap(st, z, ty), True))
    return h
for _o in ('Add', 'Sub', 'Mul'):
    _n = _o.lower()
    pat(r'core::num::<impl \w+>::wrapping_%s$' % _n)(_wrapping(_o))
    pat(r'core::num::<impl \w+>::saturating_%s$' % _n)(_sat(_o))
    pat(r'core::num::<impl \w+>::overflowing_%s$' % _n)(_ovf(_o))
    intrinsic('wrapping_' + _n)(_wrapping(_o))
    intrinsic('saturating_' + _n)(_sat(_o))
    intrinsic('unchecked_' + _n)(lambda ip, st, c, o=_o: ip.arith(st, o, c.args[0], c.args[1], c.tys[0]))
    intrinsic(_n + '_with_overflow')(lambda ip, st, c, o=_o: (lambda z: Agg(0, (ip.wrap(st, z, c.tys[0]), f_not(ip.in_range(z, c.tys[0])))))(ip.arith(st, o, c.args[0], c.args[1], c.tys[0])))
intrinsic('exact_div', 'unchecked_div')(lambda ip, st, c: ip.binop(st, 'Div', c.args[0], c.args[1], c.tys[0]))
@intrinsic('bswap')
def _(ip, st, c):
    w, s = ip.p.int_info(c.tys[0])
    bs = int_bytes(ip, st, c.args[0], w, s)
    return bytes_int(ip, st, bs[::-1], s)
@pat(r'core::num::<impl \w+>::(from_be_bytes|from_le_bytes|from_ne_bytes)$')
def _(ip, st, c):
    s = ip.to_seq(c.args[0])
    n = ip.seq_len(s).c
    bs = [ip.seq_get(st, s, K(i)) for i in range(n)]
    ty = ip.p.find_ty(re.search(r'<impl (\w+)>', c.f['def']).group(1))
    return bytes_int(ip, st, bs[::-1] if 'be' in c.f['def'] else bs, ip.p.int_info(ty)[1])
@pat(r'core::num::<impl \w+>::(to_be_bytes|to_le_bytes|to_ne_bytes)$')
def _(ip, st, c):
    w, s = ip.p.int_info(c.tys[0])
    return Agg(0, tuple(int_bytes(ip, st, c.args[0], w, s, '_be_' in c.f['def'])))
@intrinsic('ctpop')
def _(ip, st, c):
    w, s = ip.p.int_info(c.tys[0])
    n = ZERO
    for b in ip.bits(st, c.args[0], w, s): n = n + ip.as_int(st, bit_formula(b))
    return n
@pat(r'core::num::<impl \w+>::(trailing_zeros|leading_zeros)$')
def _(ip, st, c):
    w, s = ip.p.int_info(c.tys[0])
    bs = ip.bits(st, c.args[0], w, s)
    if 'leading' in c.f['def']: bs = bs[::-1]
    for i, b in enumerate(bs):
        if st.decide(bit_formula(b)): return K(i)
    return K(w)
@pat(r'core::num::<impl \w+>::(swap_bytes)$')
def _(ip, st, c): return INTRINSICS['bswap'](ip, st, c)
@pat(r'core::num::<impl \w+>::(from_be|to_be)$')
def _(ip, st, c): return INTRINSICS['bswap'](ip, st, c)
@pat(r'core::num::<impl \w+>::(from_le|to_le)$')
def _(ip, st, c): return c.args[0]
@pat(r'core::num::<impl \w+>::reverse_bits$')
def _(ip, st, c):
    w, s = ip.p.int_info(c.tys[0])
    return from_bits(ip.bits(st, c.args[0], w, s)[::-1], s)
@intrinsic('three_way_compare')
def _(ip, st, c): return ip.binop(st, 'Cmp', c.args[0], c.args[1], c.tys[0])
intrinsic('assert_inhabited', 'assert_zero_valid', 'assume', 'cold_path', 'black_box', 'caller_location', 'assert_mem_uninitialized_valid')(lambda ip, st, c: UNIT)
N['std::hint::black_box'] = lambda ip, st, c: c.args[0]
intrinsic('black_box')(lambda ip, st, c: c.args[0])
intrinsic('likely', 'unlikely')(lambda ip, st, c: c.args[0])
intrinsic('offset', 'arith_offset')(lambda ip, st, c: ptr_offset(ip, st, c.args[0], c.args[1]))
intrinsic('ptr_offset_from_unsigned', 'ptr_offset_from')(lambda ip, st, c: scaled_diff(ip, st, c))
def scaled_diff(ip, st, c):
    a, b = c.args
    if isinstance(a, Ref) and isinstance(b, Ref) and a.root == b.root and a.path[:-1] == b.path[:-1] and a.path and b.path:
        return a.path[-1][1] - b.path[-1][1]
    raise Undecided('pointer difference')
@intrinsic('integer_min', 'integer_max')
def _(ip, st, c):
    a, b = c.args[:2]
    if not (isinstance(a, Lin) and isinstance(b, Lin)): raise Undecided('smaller of %r and %r' % (a, b))
    less = st.decide(f_leq(a, b))
    return a if less == c.f['def'].endswith('min') else b
@intrinsic('discriminant_value')
def _(ip, st, c):
    r = ip.as_ref(c.args[0])
    ty = ip.p.T[c.tys[0]]['of']
    return ip.discr_of(st, ip.get(st, r.root, r.path), ty)
# floating point values are terms: nothing is derived from them, but a witness evaluates them
FL = r'(std|core)::(f32|f64|num)::<impl (f32|f64)>::'
@pat(FL + '(abs|floor|ceil|round|trunc|sqrt|fract)$|std::intrinsics::(fabs|floor|ceil|round|trunc|sqrt)f?(32|64)?$')
def _(ip, st, c):
    k = re.search(r'(abs|floor|ceil|round|trunc|sqrt|fract)f?(32|64)?$', c.f['def']).group(1)
    return Nat('flt', (k, c.args[0].d[0]))
@pat(FL + '(min|max|powi)$')
def _(ip, st, c):
    y = c.args[1]
    return Nat('flt', (c.f['def'].rsplit('::', 1)[-1], c.args[0].d[0], y.d[0] if isinstance(y, Nat) else ('i', y, 64), 64))
@pat(FL + '(is_nan|is_finite|is_infinite|is_sign_negative|is_sign_positive)$')
def _(ip, st, c): return ('eq', A(atom(('fcmp', c.f['def'].rsplit('::', 1)[-1], c.args[0].d[0], ('c', 0.0)), 1)) - ONE)
@pat(r'std::convert::num::<impl std::convert::From<(u8|i8|u16|i16|u32|i32|f32)> for (f32|f64)>::from$')
def _(ip, st, c):
    b = 32 if '> for f32' in c.f['def'] else 64
    return Nat('flt', ('i', c.args[0], b)) if isinstance(c.args[0], Lin) else Nat('flt', ('cast', c.args[0].d[0], b))
def fval(e, env, lv, aval):
    """value of a floating point term"""
    import math, struct
    rnd = lambda x, b: x if b == 64 else struct.unpack('<f', struct.pack('<f', x))[0]
    k = e[0]
    if k == 'c': return e[1]
    if k == 'i': return rnd(float(lv(e[1], env)), e[2])
    if k == 's': raise ValueError('float input')
    x = fval(e[1], env, lv, aval)
    if k == 'cast': return rnd(x, e[2])
    if k == 'neg': return -x
    if k == 'abs': return abs(x)
    if k in ('floor', 'ceil', 'trunc'): return float(getattr(math, k)(x))
    if k == 'round': return float(math.floor(abs(x) + 0.5)) * (-1 if x < 0 else 1)
    if k == 'sqrt': return math.sqrt(x)
    if k == 'fract': return x - math.trunc(x)
    y = fval(e[2], env, lv, aval)
    if k == 'Add': r = x + y
    elif k == 'Sub': r = x - y
    elif k == 'Mul': r = x * y
    elif k == 'Div': r = x / y
    elif k == 'Rem': r = math.fmod(x, y)
    elif k == 'min': r = min(x, y)
    elif k == 'max': r = max(x, y)
    elif k == 'powi': r = x ** int(y)
    else: raise ValueError(k)
    return rnd(r, e[3])
def fcmp(op, x, y):
    import math
    if op == 'Eq': return x == y
    if op == 'Lt': return x < y
    if op == 'Le': return x <= y
    if op == 'is_nan': return math.isnan(x)
    if op == 'is_finite': return math.isfinite(x)
    if op == 'is_infinite': return math.isinf(x)
    if op == 'is_sign_negative': return math.copysign(1, x) < 0
    return math.copysign(1, x) > 0
def ftoi(x, w, s):
    import math
    lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)
    if math.isnan(x): return 0
    if math.isinf(x): return hi if x > 0 else lo
    return max(lo, min(hi, math.trunc(x)))

# ---------------------------------------------------------------- speedy readers and writers

def speedy_err(ip, name):
    ty = next(t for t in ip.p.d['types'] if norm(t.get('def', '')) == 'speedy::Error' and 'variants' in t)
    kty = ty['variants'][0]['fields'][0][1]
    for i, v in enumerate(ip.p.T[kty]['variants']):
        if v['name'] == name: return Agg(0, (Agg(i, ()),))
    raise Undecided('no speedy error %s' % name)

def struct_idx(ip, ty, name):
    for i, f in enumerate(ip.p.T[ty]['variants'][0]['fields']):
        if f[0] == name: return i
    raise Undecided('no field %s' % name)

def deref_ty(ip, ty):
    while ip.p.T[ty]['k'] in ('ref', 'ptr'): ty = ip.p.T[ty]['of']
    return ty

def reader_parts(ip, st, c):
    ty = deref_ty(ip, c.tys[0])
    r = ip.as_ref(c.args[0])
    # a reference to a reference
    v = ip.get(st, r.root, r.path)
    while isinstance(v, Ref):
        r = v
        v = ip.get(st, r.root, r.path)
    i = struct_idx(ip, ty, 'ptr'); j = struct_idx(ip, ty, 'end'); k = struct_idx(ip, ty, 'context')
    p, e = v.f[i], v.f[j]
    p = ip.as_ref(p) if not isinstance(p, Ref) else p
    e = ip.as_ref(e) if not isinstance(e, Ref) else e
    return r, i, p, p.path[-1][1], e.path[-1][1], v.f[k]

def reader_take(ip, st, parts, n):
    """a window of n elements, None at the end of the input"""
    r, i, p, a, e, ctx = parts
    if not st.decide(f_leq(a + n, e)): return None
    ip.put(st, r.root, r.path + (i,), Ref(p.root, p.path[:-1] + (('i', a + n),)))
    return Ref(p.root, p.path[:-1], (a, n))

def is_big(ip, st, ctx):
    """context says big endian"""
    ctx = ip.force(ctx)
    if isinstance(ctx, Ref): ctx = ip.get(st, ctx.root, ctx.path)
    v = ip.variant_of(st, ctx)
    ty = next(t for t in ip.p.d['types'] if norm(t.get('def', '')) == 'speedy::Endianness')
    return ty['variants'][v]['name'] == 'BigEndian'

@pat(r'speedy::Reader::read_(u8|i8|u16|i16|u32|i32|u64|i64)$|<speedy::readable::\w*Reader<.*> as speedy::Reader<.*>>::read_(u8|i8|u16|i16|u32|i32|u64|i64)$')
def _(ip, st, c):
    k = c.f['def'].rsplit('read_', 1)[-1]
    n = int(k[1:]) // 8
    parts = reader_parts(ip, st, c)
    if not st.decide(f_leq(parts[3] + K(n), parts[4])): return err(speedy_err(ip, 'UnexpectedEndOfInput'))
    big = n > 1 and is_big(ip, st, parts[5])
    w = Ref(parts[2].root, parts[2].path[:-1], (parts[3], K(n)))
    s = slice_vals(ip, st, w)
    bs = [ip.seq_get(st, s, K(i)) for i in range(n)]
    x = bytes_int(ip, st, bs[::-1] if big else bs, k[0] == 'i')
    reader_take(ip, st, parts, K(n))
    return ok(x)
@pat(r'<speedy::readable::\w*Reader<.*> as speedy::Reader<.*>>::read_bytes$')
def _(ip, st, c):
    parts = reader_parts(ip, st, c)
    root, path, a, n = slice_of(ip, st, c.args[1])
    if not st.decide(f_leq(parts[3] + n, parts[4])): return err(speedy_err(ip, 'UnexpectedEndOfInput'))
    w = Ref(parts[2].root, parts[2].path[:-1], (parts[3], n))
    vals = slice_vals(ip, st, w)
    write_span(ip, st, root, path, a, vals)
    reader_take(ip, st, parts, n)
    return ok(UNIT)
@pat(r'<speedy::readable::\w*Reader<.*> as speedy::Reader<.*>>::skip_bytes$|speedy::Reader::skip_bytes$')
def _(ip, st, c):
    parts = reader_parts(ip, st, c)
    if not st.decide(f_leq(parts[3] + c.args[1], parts[4])): return err(speedy_err(ip, 'UnexpectedEndOfInput'))
    reader_take(ip, st, parts, c.args[1])
    return ok(UNIT)
@pat(r'<speedy::readable::\w*Reader<.*> as speedy::Reader<.*>>::can_read_at_least$')
def _(ip, st, c):
    parts = reader_parts(ip, st, c)
    return some(f_leq(c.args[1], parts[4] - parts[3]))
@pat(r'speedy::readable::\w*Reader::<.*>::new$')
def _(ip, st, c):
    rty = ip.p.T[c.f['locals'][0]]['id'] if 'locals' in c.f else None
    root, path, a, n = slice_of(ip, st, c.args[1])
    fs = [UNIT] * len(ip.p.T[rty]['variants'][0]['fields'])
    fs[struct_idx(ip, rty, 'context')] = c.args[0]
    fs[struct_idx(ip, rty, 'ptr')] = elem_ref(root, path, a)
    fs[struct_idx(ip, rty, 'end')] = elem_ref(root, path, a + n)
    return Agg(0, tuple(fs))

def writer_parts(ip, st, c):
    ty = deref_ty(ip, c.tys[0])
    d = ip.p.adt(ty)
    r = ip.as_ref(c.args[0])
    v = ip.get(st, r.root, r.path)
    while isinstance(v, Ref):
        r = v
        v = ip.get(st, r.root, r.path)
    return ty, d, r, v

def write_seq(ip, st, c, seq_of):
    ty, d, r, v = writer_parts(ip, st, c)
    if d == 'speedy::writable::SizeCalculatorCollector':
        n = ip.seq_len(seq_of(False))
        i = struct_idx(ip, ty, 'size')
        z = v.f[i] + n
        ip.put(st, r.root, r.path + (i,), ip.wrap(st, z, ip.p.usize))
        return ok(UNIT)
    if d == 'speedy::writable::BufferCollector':
        big = None
        ctx = v.f[struct_idx(ip, ty, 'context')]
        s = seq_of(lambda: is_big(ip, st, ctx))
        b = ip.as_ref(v.f[struct_idx(ip, ty, 'buffer')])
        i = struct_idx(ip, ty, 'position')
        buf = ip.get(st, b.root, b.path)
        if isinstance(buf, Nat) and buf.k == 'sink':
            # the checks hand in a buffer that grows
            ip.put(st, b.root, b.path, Nat('sink', ip.seq_norm(st, buf.d[0].segs + s.segs)))
            ip.put(st, r.root, r.path + (i,), v.f[i] + ip.seq_len(s))
            return ok(UNIT)
        root, path, a, n = slice_of(ip, st, b)
        m = ip.seq_len(s)
        if not st.decide(f_leq(v.f[i] + m, n)): return err(speedy_err(ip, 'UnexpectedEndOfOutputBuffer'))
        write_span(ip, st, root, path, a + v.f[i], s)
        ip.put(st, r.root, r.path + (i,), v.f[i] + m)
        return ok(UNIT)
    raise Undecided('writer %s' % d)

W = r'(speedy::Writer::|<speedy::writable::\w+(<.*>)? as speedy::Writer<.*>>::)'
@pat(W + r'write_(u8|i8|u16|i16|u32|i32|u64|i64)$')
def _(ip, st, c):
    k = c.f['def'].rsplit('write_', 1)[-1]
    w = int(k[1:])
    def seq(big):
        x = ip.as_int(st, c.args[1])
        if big is False: return SeqV((('E', (ZERO,) * (w // 8)),))
        return SeqV((('E', tuple(int_bytes(ip, st, x, w, k[0] == 'i', w > 8 and big()))),))
    return write_seq(ip, st, c, seq)
@pat(W + r'write_bytes$')
def _(ip, st, c):
    return write_seq(ip, st, c, lambda big: slice_vals(ip, st, c.args[1]))
@pat(r'speedy::utils::as_bytes$')
def _(ip, st, c):
    info = ip.p.int_info(c.f['args'][0])
    if not info: raise Undecided('bytes of a slice of values')
    if info[0] == 8: return c.args[0]
    s = slice_vals(ip, st, c.args[0])
    n = ip.concrete(st, ip.seq_len(s), 300)
    bs = []
    for i in range(n): bs += int_bytes(ip, st, ip.seq_get(st, s, K(i)), info[0], info[1])
    return Ref(st.alloc(SeqV((('E', tuple(bs)),) if bs else ())), (), (ZERO, K(len(bs))))
@pat(W + r'can_write_at_least$')
def _(ip, st, c): return NONE

# a vector of n values read one after the other: element i starts where element i-1 ended
@native('speedy::Reader::read_vec')
def _(ip, st, c):
    import loops
    return loops.read_vec(ip, st, c)

# ---------------------------------------------------------------- time

def leaf(ip, v):
    v = ip.force(v)
    while isinstance(v, Agg) and len(v.f) == 1: v = ip.force(v.f[0])
    return v
NS = 1000000000
def sym_duration(ip, v):
    return Nat('dur', A(atom(v.key + ('secs',), 64)), A(atom(v.key + ('nanos',), 32, False, 0, NS - 1)))
def sym_systime(ip, v):
    return Nat('systime', A(atom(v.key + ('secs',), 64, True)), A(atom(v.key + ('nanos',), 32, False, 0, NS - 1)))
SYM_ADT['std::time::Duration'] = sym_duration
SYM_ADT['std::time::SystemTime'] = sym_systime
def as_dur(ip, v):
    v = ip.force(v)
    if isinstance(v, Nat) and v.k == 'dur': return v.d
    if isinstance(v, Agg) and len(v.f) == 2: return leaf(ip, v.f[0]), leaf(ip, v.f[1])
    raise Undecided('duration %r' % (v,))
def as_systime(ip, v):
    v = ip.force(v)
    if isinstance(v, Nat) and v.k == 'systime': return v.d
    while isinstance(v, Agg) and len(v.f) == 1: v = v.f[0]
    if isinstance(v, Agg) and len(v.f) == 2: return leaf(ip, v.f[0]), leaf(ip, v.f[1])
    raise Undecided('system time %r' % (v,))
D = r'(std|core)::time::Duration::'
@pat(D + 'as_secs$')
def _(ip, st, c): return as_dur(ip, rd(ip, st, c.args[0]))[0]
@pat(D + 'subsec_nanos$')
def _(ip, st, c): return as_dur(ip, rd(ip, st, c.args[0]))[1]
@pat(D + 'subsec_micros$')
def _(ip, st, c): return ip.divmod_c(st, as_dur(ip, rd(ip, st, c.args[0]))[1], 1000)[0]
@pat(D + 'subsec_millis$')
def _(ip, st, c): return ip.divmod_c(st, as_dur(ip, rd(ip, st, c.args[0]))[1], 1000000)[0]
@pat(D + 'as_nanos$')
def _(ip, st, c):
    s, n = as_dur(ip, rd(ip, st, c.args[0]))
    return scale(s, NS) + n
@pat(D + 'as_(micros|millis)$')
def _(ip, st, c):
    s, n = as_dur(ip, rd(ip, st, c.args[0]))
    k = 1000 if c.f['def'].endswith('micros') else 1000000
    return scale(s, NS // k) + ip.divmod_c(st, n, k)[0]
def dur_norm(ip, st, s, n, strict=True):
    """seconds and nanoseconds to a Duration, None when it cannot be represented"""
    if not st.decide(f_leq(ZERO, n)): s, n = s - ONE, n + K(NS)
    elif not st.decide(f_lt(n, K(NS))): s, n = s + ONE, n - K(NS)
    if not st.decide(f_and(f_leq(ZERO, s), f_leq(s, K((1 << 64) - 1)))): return None
    return Nat('dur', s, n)
def dur_sum(ip, st, c, sign):
    a, b = as_dur(ip, rd(ip, st, c.args[0]) if isinstance(c.args[0], Ref) else c.args[0]), as_dur(ip, c.args[1])
    return dur_norm(ip, st, a[0] + b[0], a[1] + b[1]) if sign > 0 else dur_norm(ip, st, a[0] - b[0], a[1] - b[1])
@pat(D + '(checked|saturating)_(add|sub)$')
def _(ip, st, c):
    add = c.f['def'].endswith('add')
    r = dur_sum(ip, st, c, 1 if add else -1)
    if 'checked' in c.f['def']: return NONE if r is None else some(r)
    if r is not None: return r
    return Nat('dur', K((1 << 64) - 1), K(NS - 1)) if add else Nat('dur', ZERO, ZERO)
@pat(r'<std::time::Duration as std::ops::(Add|Sub)>::(add|sub)$')
def _(ip, st, c):
    r = dur_sum(ip, st, c, 1 if c.f['def'].endswith('add') else -1)
    if r is None: raise PanicEx('overflow in an operation on durations')
    return r
@pat(r'<std::time::Duration as std::ops::(Add|Sub)Assign>::(add|sub)_assign$')
def _(ip, st, c):
    r = dur_sum(ip, st, c, 1 if 'Add' in c.f['def'] else -1)
    if r is None: raise PanicEx('overflow in an operation on durations')
    wr(ip, st, c.args[0], r)
    return UNIT
@pat(r'<std::time::Duration as std::ops::Mul<u32>>::mul$|' + D + 'checked_mul$')
def _(ip, st, c):
    s, n = as_dur(ip, c.args[0])
    k = c.args[1]
    if k.t: raise Undecided('product of a duration')
    q, r = ip.divmod_c(st, scale(n, k.c), NS)
    t = scale(s, k.c) + q
    fits_ = st.decide(f_leq(t, K((1 << 64) - 1)))
    if c.f['def'].endswith('checked_mul'): return some(Nat('dur', t, r)) if fits_ else NONE
    if not fits_: raise PanicEx('overflow in an operation on durations')
    return Nat('dur', t, r)
@pat(D + 'as_secs_f(32|64)$')
def _(ip, st, c):
    s, n = as_dur(ip, rd(ip, st, c.args[0]))
    b = int(c.f['def'][-2:])
    return Nat('flt', ('Add', ('i', s, b), ('Div', ('i', n, b), ('c', 1e9), b), b))
@pat(D + 'is_zero$')
def _(ip, st, c):
    s, n = as_dur(ip, rd(ip, st, c.args[0]))
    return f_and(f_eq0(s), f_eq0(n))
@pat(D + 'new$')
def _(ip, st, c):
    s, n = c.args
    if st.decide(f_lt(n, K(NS))): return Nat('dur', s, n)
    q, r = ip.divmod_c(st, n, NS)
    t = s + q
    if not st.decide(f_leq(t, K((1 << 64) - 1))): raise PanicEx('overflow in Duration::new')
    return Nat('dur', t, r)
@pat(D + 'from_secs$')
def _(ip, st, c): return Nat('dur', c.args[0], ZERO)
@pat(D + 'from_(nanos|micros|millis)$')
def _(ip, st, c):
    k = {'nanos': NS, 'micros': 1000000, 'millis': 1000}[c.f['def'].rsplit('_', 1)[-1]]
    q, r = ip.divmod_c(st, c.args[0], k)
    return Nat('dur', q, scale(r, NS // k))
@pat(r'<std::time::Duration as std::cmp::PartialEq>::(eq|ne)$')
def _(ip, st, c):
    a, b = as_dur(ip, rd(ip, st, c.args[0])), as_dur(ip, rd(ip, st, c.args[1]))
    r = f_and(f_eq(a[0], b[0]), f_eq(a[1], b[1]))
    return r if c.f['def'].endswith('eq') else f_not(r)
@pat(r'<std::time::Duration as std::cmp::(PartialOrd|Ord)>::(partial_cmp|cmp|lt|le|gt|ge)$')
def _(ip, st, c):
    a, b = as_dur(ip, rd(ip, st, c.args[0])), as_dur(ip, rd(ip, st, c.args[1]))
    lt = f_or(f_lt(a[0], b[0]), f_and(f_eq(a[0], b[0]), f_lt(a[1], b[1])))
    eq = f_and(f_eq(a[0], b[0]), f_eq(a[1], b[1]))
    k = c.f['def'].rsplit('::', 1)[-1]
    if k == 'lt': return lt
    if k == 'le': return f_or(lt, eq)
    if k == 'gt': return f_not(f_or(lt, eq))
    if k == 'ge': return f_not(lt)
    r = Agg(0, ()) if st.decide(lt) else Agg(1, ()) if st.decide(eq) else Agg(2, ())
    return some(r) if k == 'partial_cmp' else r
@pat(r'std::time::SystemTime::duration_since$')
def _(ip, st, c):
    s, n = as_systime(ip, rd(ip, st, c.args[0]))
    s0, n0 = as_systime(ip, c.args[1])
    ds, dn = s - s0, n - n0
    if st.decide(f_or(f_lt(K(0), ds), f_and(f_eq0(ds), f_leq(ZERO, dn)))):
        if not st.decide(f_leq(ZERO, dn)): ds, dn = ds - ONE, dn + K(NS)
        return ok(Nat('dur', ds, dn))
    # the error holds the positive distance
    ds, dn = -ds, -dn
    if not st.decide(f_leq(ZERO, dn)): ds, dn = ds - ONE, dn + K(NS)
    return err(Nat('steerr', Nat('dur', ds, dn)))
@pat(r'std::time::SystemTimeError::duration$')
def _(ip, st, c):
    v = rd(ip, st, c.args[0])
    return v.d[0] if isinstance(v, Nat) and v.k == 'steerr' else None
def st_add(ip, st, t, d, sign):
    s, n = t
    a, b = d
    s2 = s + a if sign > 0 else s - a
    n2 = n + b if sign > 0 else n - b
    if sign > 0 and not st.decide(f_lt(n2, K(NS))): s2, n2 = s2 + ONE, n2 - K(NS)
    if sign < 0 and not st.decide(f_leq(ZERO, n2)): s2, n2 = s2 - ONE, n2 + K(NS)
    if not st.decide(f_and(f_leq(K(-(1 << 63)), s2), f_leq(s2, K((1 << 63) - 1)))): return None
    return Nat('systime', s2, n2)
@pat(r'<std::time::SystemTime as std::ops::(Add|Sub)<std::time::Duration>>::(add|sub)$')
def _(ip, st, c):
    r = st_add(ip, st, as_systime(ip, c.args[0]), as_dur(ip, c.args[1]), 1 if c.f['def'].endswith('add') else -1)
    if r is None: raise PanicEx(panic_text(ip, st, c))
    return r
@pat(r'std::time::SystemTime::checked_(add|sub)$')
def _(ip, st, c):
    r = st_add(ip, st, as_systime(ip, rd(ip, st, c.args[0])), as_dur(ip, c.args[1]), 1 if c.f['def'].endswith('add') else -1)
    return NONE if r is None else some(r)

# ---------------------------------------------------------------- internet addresses

# ---------------------------------------------------------------- misc

@pat(r'.*::(precondition_check|runtime)$')
def _(ip, st, c): return UNIT
# frees a box whose content has been moved out or dropped
@pat(r'<std::boxed::Box<.*> as std::ops::Drop>::drop$')
def _(ip, st, c): return UNIT
@pat(r'std::ptr::drop_glue')
def _(ip, st, c): return Pass(*c.args) if c.f.get('drops') else UNIT

# membership of one bit is decided for each index on its own
@pat(r'(\w+::)?bit_set::BitSet::<.*>::(insert|remove|contains)$|(\w+::)?bit_vec::BitVec::<.*>::(get|set)$')
def _(ip, st, c):
    i = c.args[1]
    if isinstance(i, Lin) and i.t: i = K(ip.concrete(st, i, 300))
    return Pass(c.args[0], i, *c.args[2:])
