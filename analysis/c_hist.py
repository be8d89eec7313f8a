"""Checks of the history cache, the reader proxy and the writers.

Collections are analysed for each length up to a bound with arbitrary contents.
"""
from check import *
from c_values import imp

def bound(ck, quick, thorough): return thorough if ck.tier == 'thorough' else quick

def vec_of(ck, ty, name, n):
    xs = [ck.sym(ty, '%s%d' % (name, i)) for i in range(n)]
    return xs, (SeqV((('E', tuple(xs)),)) if xs else SeqV(()))

def field_of_type(ck, ty, tname):
    """index of the only field with the given type"""
    c = [i for i, f in enumerate(ck.p.T[ty]['variants'][0]['fields']) if short(ck.p.T[f[1]]['s']) == tname]
    if len(c) != 1: raise Anchor('field of type %s in %s not found' % (tname, ck.p.T[ty]['s']))
    return c[0]

def struct_with(ck, ty, name, over):
    """a structure whose fields are arbitrary except for the given ones (index -> value)"""
    s = ck.sym(ty, name)
    n = len(ck.p.T[ty]['variants'][0]['fields'])
    return Agg(0, tuple(over[i] if i in over else ck.ip.sym_child(s, 0, i) for i in range(n)))

FIELDS = {'HistoryCache': 1, 'ReaderProxy': 4, 'StatefulWriter': 4, 'StatelessWriter': 5, 'WriterAttributes': 5}
NAMES = ('changes', 'remote_reader_guid', 'expects_inline_qos', 'is_active', 'highest_seq_num_sent', 'matched_readers', 'entity', 'endpoint', 'writer',
         'resend_data_period', 'reader_locators', 'entity_attributes', 'endpoint_attributes', 'writer_attributes',
         'push_mode', 'heartbeat_period', 'nack_response_delay', 'nack_suppression_duration', 'last_change_sequence_number')

def extra_state(ck, ty):
    """fields that the properties do not speak of (a cache, a counter): their values depend on the history, they are not arbitrary"""
    fs = ck.p.T[ty]['variants'][0]['fields']
    n = FIELDS.get(tname(ck, ty))
    if n is None or len(fs) <= n: return []
    return [i for i, f in enumerate(fs) if f[0] not in NAMES]

def tname(ck, ty): return short(ck.p.T[ty]['s'])

def after(ck, states, f, args, limit=40):
    """[(state, root)]: the states after a call of the operation"""
    out = []
    for st, r in states:
        for o in ck.run(f, (Ref(r),) + tuple(args), st):
            if o.kind == 'ret' and not o.st.imprecise: out.append((o.st, r))
        if len(out) > limit: raise Undecided('too many states')
    return out

def created(ck, f, args, st=None):
    """[(state, root)]: the new values of a constructor"""
    out = []
    for o in ck.run(f, args, st):
        if o.kind != 'ret': continue
        s = o.st.copy()
        out.append((s, s.alloc(o.value)))
    return out

def items(ck, s, v):
    """elements of a sequence whose length is fixed by the facts of the state"""
    ip = ck.ip
    v = ip.to_seq(v)
    n = ip.concrete(s, ip.seq_len(v), 16)
    return [ip.get(s, s.alloc(v), (('i', K(i)),)) for i in range(n)]

def deref(ck, s, v):
    v = ck.ip.force(v)
    while isinstance(v, Ref): v = ck.ip.get(s, v.root, v.path)
    return v

def same(ck, s, a, b): return value_eq(ck.ip, s, a, b)

def bag(ck, s, got, want):
    """formula: the same elements, in whatever order"""
    if len(got) != len(want): return False
    got = list(got)
    out = []
    for w in want:
        hit = next((g for g in got if s.facts.holds(same(ck, s, g, w))), None)
        if hit is None:
            hit = got[0]
            out.append(same(ck, s, hit, w))
        got.remove(hit)
    return f_and(*out) if out else True

def in_order(ck, s, got, want):
    if len(got) != len(want): return False
    return f_and(*[same(ck, s, g, w) for g, w in zip(got, want)]) if got else True

def unchanged_but(ck, s, old, new, ty, but):
    """all fields other than the given ones are as before"""
    ip = ck.ip
    fs = []
    n = len(ck.p.T[ty]['variants'][0]['fields'])
    hidden = extra_state(ck, ty)
    for i in range(n):
        if i in but or i in hidden: continue
        fs.append(same(ck, s, ip.step_in(s, old, i) if not isinstance(old, Sym) else ip.sym_child(old, 0, i), ip.step_in(s, new, i)))
    return f_and(*fs) if fs else True

def drain(ck, st, it, limit):
    """[(state, [items])...]: everything that an iterator yields"""
    ip = ck.ip
    ty = it[1]
    tname = short(ck.p.T[ty]['s'])
    f = next((g for n, g in ((short(norm(g['name'])), g) for g in ck.p.d['fns']) if n == '<%s as Iterator>::next' % tname), None)
    if f is None: raise Anchor('iterator %s' % tname)
    if isinstance(it[0], Nat): f = models.next_fn(ip, ty)
    s0 = st.copy()
    r = s0.alloc(it[0])
    todo = [(s0, [])]
    done = []
    while todo:
        s, got = todo.pop()
        for o in ck.run(f, (Ref(r),), s):
            if o.kind != 'ret':
                done.append((o, None))
                continue
            v = ip.force(o.value)
            if ip.variant_of(o.st, v) == 0: done.append((o, got))
            elif len(got) > limit: raise Undecided('iterator yields more than %d items' % limit)
            else: todo.append((o.st, got + [ip.force(ip.step_in(o.st, v, ('v', 1, 0)))]))
    return done

def wrapped(ck, ty, x):
    """a value of a type that only wraps one scalar"""
    t = ck.p.T[ty]
    if t['k'] != 'struct': return x
    if len(t['variants'][0]['fields']) != 1: raise Anchor('%s is more than a number' % t['s'])
    return Agg(0, (wrapped(ck, t['variants'][0]['fields'][0][1], x),))

def numbered(ck, n, base, step):
    """n changes numbered base, base + step, ..., arbitrary otherwise"""
    cty = ck.ty('CacheChange')
    i = ck.findex(cty, 'sequence_number', alt='SequenceNumber_t')
    ty = ck.p.T[cty]['variants'][0]['fields'][i][1]
    return [struct_with(ck, cty, 'numbered%d' % k, {i: wrapped(ck, ty, base + K(k * step))}) for k in range(n)]

LONG = (300, 1100)

# ---------------------------------------------------------------- C18

def c18(ck):
    """Every operation of the history cache is analysed for a cache of each length up to a bound with arbitrary contents and an arbitrary argument: the stored changes afterwards, compared as a multiset with the specified ones, and the answer."""
    ip = ck.ip
    hty = ck.ty('HistoryCache'); cty = ck.ty('CacheChange')
    fi = field_of_type(ck, hty, 'Vec<CacheChange>')
    sty = ck.ty('SequenceNumber_t')
    def sn(s, c): return ck.leaf(ck.fld(s, c, cty, 'sequence_number', 'SequenceNumber_t'))
    q = ck.sym(sty, 'wanted')
    qn = ck.leaf(q)
    new = ck.sym(cty, 'new')
    top = bound(ck, 3, 4)
    def content(s, r): return items(ck, s, ip.get(s, r, (fi,)))
    def setup(n):
        st = State()
        xs, v = vec_of(ck, cty, 'change', n)
        return st, xs, st.alloc(struct_with(ck, hty, 'cache', {fi: v}))
    hidden = extra_state(ck, hty)
    def added(xs):
        states = created(ck, ck.fn('HistoryCache::new'), ())
        for x in xs: states = after(ck, states, ck.fn('HistoryCache::add_change'), (x,))
        return states
    gone = ck.sym(sty, 'gone')
    def setups(n):
        """(name, state, changes stored, cache)"""
        if not hidden:
            yield ('%d changes' % n,) + setup(n)
            return
        xs, _ = vec_of(ck, cty, 'change', n)
        for st, r in added(xs): yield '%d changes added' % n, st, xs, r
        ys, _ = vec_of(ck, cty, 'change', n + 1)
        for k in range(1, n + 2):
            states = after(ck, added(ys[:k]), ck.fn('HistoryCache::remove_change'), (gone,))
            for y in ys[k:]: states = after(ck, states, ck.fn('HistoryCache::add_change'), (y,))
            for st, r in states:
                for s, left in ck.cases(st, lambda s: [y for y in ys[:k] if not s.decide(f_eq(sn(s, y), ck.leaf(gone)))] + ys[k:]):
                    if len(left) == n: yield '%d changes left after a removal' % n, s, left, r
    def op(name, args, post):
        def go():
            f = ck.fn('HistoryCache::' + name)
            for n in range(top + 1 if not hidden else 3):
                for what, st, xs, r in setups(n):
                    outs = ck.run(f, (Ref(r),) + args, st)
                    ck.prove('%s with %s' % (name, what), outs, lambda s, v: post(s, v, xs, r), msg=name)
        ck.group(name, go)
    def keeps(s, r, xs): return (bag(ck, s, content(s, r), xs), 'the stored changes differ')
    op('add_change', (new,), lambda s, v, xs, r: [(bag(ck, s, content(s, r), xs + [new]), 'the stored changes are not the previous ones and the added one')])
    def rm(s, v, xs, r):
        want = [x for x in xs if not s.decide(f_eq(sn(s, x), qn))]
        return [(bag(ck, s, content(s, r), want), 'not exactly the changes with that number are removed')]
    op('remove_change', (q,), rm)
    def get(s, v, xs, r):
        hit = [x for x in xs if s.decide(f_eq(sn(s, x), qn))]
        v = ip.force(v)
        k = ip.variant_of(s, v)
        if k == 0: return [(not hit, 'a stored change is not found'), keeps(s, r, xs)]
        c = deref(ck, s, ip.step_in(s, v, ('v', 1, 0)))
        return [(f_or(*[same(ck, s, c, x) for x in hit]) if hit else False, 'the answer is no stored change with that number'), keeps(s, r, xs)]
    op('get_change', (q,), get)
    def ext(lo):
        def post(s, v, xs, r):
            v = ip.force(v)
            k = ip.variant_of(s, v)
            if k == 0: return [(not xs, 'absent although the cache is not empty'), keeps(s, r, xs)]
            if not xs: return [(False, 'present although the cache is empty')]
            m = ck.leaf(deref(ck, s, ip.step_in(s, v, ('v', 1, 0))))
            le = (lambda a, b: f_leq(a, b)) if lo else (lambda a, b: f_leq(b, a))
            return [(f_and(*[le(m, sn(s, x)) for x in xs]), 'some stored number is beyond the reported one'),
                    (f_or(*[f_eq(m, sn(s, x)) for x in xs]), 'the reported number is not stored'), keeps(s, r, xs)]
        return post
    op('get_seq_num_min', (), ext(True))
    op('get_seq_num_max', (), ext(False))
    def empty():
        st = State()
        for o in ck.run(ck.fn('HistoryCache::new'), (), st):
            ck.prove('new cache', [o], lambda s, v: [(not items(ck, s, ip.step_in(s, ip.force(v), fi)), 'a new cache is not empty')])
    ck.group('new', empty)
    def any_size():
        if hidden: return
        st = State()
        v = ck.sym(ck.p.T[hty]['variants'][0]['fields'][fi][1], 'stored')
        n = ip.seq_len(ip.to_seq(v))
        r = st.alloc(struct_with(ck, hty, 'cache', {fi: v}))
        ck.prove('add_change to a cache of any size', ck.run(ck.fn('HistoryCache::add_change'), (Ref(r), new), st),
                 lambda s, _: [(f_eq(ip.seq_len(ip.to_seq(ip.get(s, r, (fi,)))), n + ONE), 'the number of stored changes does not grow by one')], msg='add_change to a cache of any size')
    ck.group('any size', any_size)
    def long():
        n = bound(ck, *LONG)
        base = ck.leaf(ck.sym(sty, 'first'))
        def fresh(step):
            st = State()
            st.assume(f_leq(base, K((1 << 63) - 1 - 2 * n)))
            st.assume(f_leq(K(2 * n - (1 << 63)), base))
            xs = numbered(ck, n, base, step)
            if hidden:
                states = created(ck, ck.fn('HistoryCache::new'), (), st)
                for x in xs:
                    states = after(ck, states, ck.fn('HistoryCache::add_change'), (x,))
                    if len(states) != 1: raise Undecided('states of a long cache')
                return states[0][0], xs, states[0][1]
            return st, xs, st.alloc(struct_with(ck, hty, 'cache', {fi: SeqV((('E', tuple(xs)),))}))
        for step in (1, -1):
            how = 'ascending' if step == 1 else 'descending'
            for name, post in (('get_seq_num_min', ext(True)), ('get_seq_num_max', ext(False))):
                st, xs, r = fresh(step)
                ck.prove('%s of %d %s changes' % (name, n, how), ck.run(ck.fn('HistoryCache::' + name), (Ref(r),), st), lambda s, v: post(s, v, xs, r), msg=name)
            for at in (0, n // 2, n - 1):
                w = wrapped(ck, sty, base + K(at * step))
                st, xs, r = fresh(step)
                ck.prove('get_change %d of %d %s changes' % (at + 1, n, how), ck.run(ck.fn('HistoryCache::get_change'), (Ref(r), w), st),
                         lambda s, v: [(ip.variant_of(s, ip.force(v)) == 1 and same(ck, s, deref(ck, s, ip.step_in(s, ip.force(v), ('v', 1, 0))), xs[at]), 'the answer is not the stored change with that number'), keeps(s, r, xs)], msg='get_change')
                st, xs, r = fresh(step)
                ck.prove('remove_change %d of %d %s changes' % (at + 1, n, how), ck.run(ck.fn('HistoryCache::remove_change'), (Ref(r), w), st),
                         lambda s, v: [(bag(ck, s, content(s, r), xs[:at] + xs[at + 1:]), 'not exactly the changes with that number are removed')], msg='remove_change')
            st, xs, r = fresh(step)
            ck.prove('add_change to %d %s changes' % (n, how), ck.run(ck.fn('HistoryCache::add_change'), (Ref(r), new), st),
                     lambda s, v: [(bag(ck, s, content(s, r), xs + [new]), 'the stored changes are not the previous ones and the added one')], msg='add_change')
    ck.group('long', long)
    # what was stored is what is looked up afterwards
    def add_get():
        f, g = ck.fn('HistoryCache::add_change'), ck.fn('HistoryCache::get_change')
        for n in range(min(top, 2) + 1):
          for what, st, xs, r in setups(n):
            for o in ck.run(f, (Ref(r), new), st):
                if o.kind != 'ret': continue
                outs = ck.run(g, (Ref(r), q), o.st)
                ck.prove('add, then look up with %s' % what, outs, lambda s, v: get(s, v, xs + [new], r), msg='look up after adding')
    ck.group('add then get', add_get)

# ---------------------------------------------------------------- C19

def c19(ck):
    """Both operations of a reader proxy are analysed for an arbitrary proxy and a slice of changes of each length up to a bound with arbitrary contents; the iterator of unsent changes is advanced to its end."""
    ip = ck.ip
    pty = ck.ty('ReaderProxy'); cty = ck.ty('CacheChange')
    hi = ck.findex(pty, 'highest_seq_num_sent', alt='SequenceNumber_t')
    def sn(s, c): return ck.leaf(ck.fld(s, c, cty, 'sequence_number', 'SequenceNumber_t'))
    hidden = extra_state(ck, pty)
    top = bound(ck, 3, 4)
    def proxies():
        """(state, proxy): an arbitrary one, or those after a history when there is extra state"""
        if not hidden:
            yield State(), ck.sym(pty, 'proxy')
            return
        news = created(ck, ck.fn('ReaderProxy::new'), (ck.sym(ck.fty(pty, 'remote_reader_guid', alt='GUID_t'), 'guid'), ('p', ('expects inline qos',))))
        for st, r in news: yield st, ip.get(st, r, ())
        for k in (1, 2):
            for st, r in news:
                st = st.copy()
                xs, v = vec_of(ck, cty, 'sent', k)
                for x in xs: st.assume(f_leq(ONE, sn(st, x)))
                for s, q in after(ck, [(st, r)], ck.fn('ReaderProxy::next_unsent_change'), (Ref(st.alloc(v), (), (ZERO, K(k))),)): yield s, ip.get(s, q, ())
    def high(s, p): return ck.leaf(ck.fld(s, p, pty, 'highest_seq_num_sent', 'SequenceNumber_t'))
    def setups(n):
        for st, px in proxies():
            st = st.copy()
            xs, v = vec_of(ck, cty, 'change', n)
            a = st.alloc(v)
            yield st, xs, px, st.alloc(px), Ref(a, (), (ZERO, K(n)))
    def kept(s, px, now): return unchanged_but(ck, s, px, now, pty, [])
    def nxt():
        f = ck.fn('ReaderProxy::next_unsent_change')
        for n in range(top + 1 if not hidden else 3):
          for st, xs, px, r, a in setups(n):
            h = high(st, px)
            def post(s, v):
                un = [x for x in xs if s.decide(f_lt(h, sn(s, x)))]
                v = ip.force(v)
                k = ip.variant_of(s, v)
                now = ip.get(s, r, ())
                if k == 0: return [(not un, 'an unsent change is not returned'), (kept(s, px, now), 'the proxy changes without a change to send')]
                c = deref(ck, s, ip.step_in(s, v, ('v', 1, 0)))
                hn = ck.leaf(ck.fld(s, now, pty, 'highest_seq_num_sent', 'SequenceNumber_t'))
                return [(f_or(*[same(ck, s, c, x) for x in un]) if un else False, 'the change returned is not unsent'),
                        (f_and(*[f_leq(sn(s, c), sn(s, x)) for x in un]), 'a change with a smaller number is unsent'),
                        (f_eq(hn, sn(s, c)), 'the highest number sent is not that of the change'),
                        (unchanged_but(ck, s, px, now, pty, [hi]), 'another part of the proxy changes')]
            ck.prove('next unsent change of %d' % n, ck.run(f, (Ref(r), a), st), post, msg='next unsent change')
    ck.group('next_unsent_change', nxt)
    def unsent_of(st, r, a, name, want, n):
        f = ck.fn('ReaderProxy::unsent_changes')
        ity = f['locals'][0]
        for o in ck.run(f, (Ref(r), a), st):
            if o.kind != 'ret':
                ck.prove(name, [o], lambda s, v: True); continue
            for o2, got in drain(ck, o.st, (o.value, ity), n + 1):
                if got is None:
                    ck.prove(name, [o2], lambda s, v: True); continue
                ck.prove(name, [o2], lambda s, v: [(in_order(ck, s, [deref(ck, s, g) for g in got], want(s)), 'not exactly the changes above the highest number sent, in the given order')], msg='unsent changes')
    def uns():
        for n in range(top + 1 if not hidden else 3):
          for st, xs, px, r, a in setups(n):
            h = high(st, px)
            unsent_of(st, r, a, 'unsent changes of %d' % n, lambda s: [x for x in xs if s.decide(f_lt(h, sn(s, x)))], n)
    ck.group('unsent_changes', uns)
    def fresh():
        f = ck.fn('ReaderProxy::new')
        g = ck.sym(ck.fty(pty, 'remote_reader_guid', alt='GUID_t'), 'guid')
        qos = ('p', ('expects inline qos',))
        for n in range(min(top, 2) + 1):
            st = State()
            xs, v = vec_of(ck, cty, 'change', n)
            for x in xs: st.assume(f_leq(ONE, sn(st, x)))
            a = Ref(st.alloc(v), (), (ZERO, K(n)))
            for o in ck.run(f, (g, qos), st):
                if o.kind != 'ret':
                    ck.prove('new proxy', [o], lambda s, v: True); continue
                if n == 0: ck.prove('new proxy', [o], lambda s, v: [(same(ck, s, ck.fld(s, v, pty, 'remote_reader_guid', 'GUID_t'), g), 'the remote reader differs')], msg='new proxy')
                s = o.st.copy()
                r = s.alloc(o.value)
                unsent_of(s, r, a, 'unsent changes of %d for a new proxy' % n, lambda s: xs, n)
    ck.group('new', fresh)
    def long():
        n = bound(ck, *LONG)
        if hidden: return
        px = ck.sym(pty, 'proxy')
        h = high(State(), px)
        def fresh(step, unsent):
            st = State()
            st.assume(f_leq(h, K((1 << 63) - 1 - 2 * n)))
            st.assume(f_leq(K(2 * n - (1 << 63)), h))
            lo = h + K(1 - (n - unsent)) if step == 1 else h + K(unsent)
            xs = numbered(ck, n, lo, step)
            a = st.alloc(SeqV((('E', tuple(xs)),)))
            return st, xs, st.alloc(px), Ref(a, (), (ZERO, K(n)))
        for step in (1, -1):
            how = 'ascending' if step == 1 else 'descending'
            for unsent in (n, 1, 0):
                st, xs, r, a = fresh(step, unsent)
                un = xs[n - unsent:] if step == 1 else xs[:unsent]
                first = None if not un else un[0] if step == 1 else un[-1]
                def post(s, v):
                    v = ip.force(v)
                    now = ip.get(s, r, ())
                    if ip.variant_of(s, v) == 0: return [(not un, 'an unsent change is not returned'), (kept(s, px, now), 'the proxy changes without a change to send')]
                    c = deref(ck, s, ip.step_in(s, v, ('v', 1, 0)))
                    return [(same(ck, s, c, first) if un else False, 'the change returned is not the unsent one with the smallest number'),
                            (f_eq(ck.leaf(ck.fld(s, now, pty, 'highest_seq_num_sent', 'SequenceNumber_t')), sn(s, first)) if un else False, 'the highest number sent is not that of the change'),
                            (unchanged_but(ck, s, px, now, pty, [hi]), 'another part of the proxy changes')]
                ck.prove('next unsent change of %d %s, %d unsent' % (n, how, unsent), ck.run(ck.fn('ReaderProxy::next_unsent_change'), (Ref(r), a), st), post, msg='next unsent change')
                st, xs, r, a = fresh(step, unsent)
                unsent_of(st, r, a, 'unsent changes of %d %s, %d unsent' % (n, how, unsent), lambda s: un, n)
    ck.group('long', long)
    # two calls in a row never return the same number
    def twice():
        f = ck.fn('ReaderProxy::next_unsent_change')
        for n in (1, 2):
          for st, xs, px, r, a in setups(n):
            for o in ck.run(f, (Ref(r), a), st):
                if o.kind != 'ret' or ip.variant_of(o.st, ip.force(o.value)) == 0: continue
                c1 = deref(ck, o.st, ip.step_in(o.st, ip.force(o.value), ('v', 1, 0)))
                def post(s, v):
                    v = ip.force(v)
                    if ip.variant_of(s, v) == 0: return True
                    c2 = deref(ck, s, ip.step_in(s, v, ('v', 1, 0)))
                    return [(f_lt(sn(s, c1), sn(s, c2)), 'a number is returned again')]
                ck.prove('next unsent change twice of %d' % n, ck.run(f, (Ref(r), a), o.st), post, msg='next unsent change twice')
    ck.group('twice', twice)

# ---------------------------------------------------------------- C17

def c17(ck):
    """Creating a change is analysed for an arbitrary stateless writer and arbitrary arguments: the change returned, the last number, and every other part of the writer."""
    ip = ck.ip
    wty = ck.ty('StatelessWriter'); cty = ck.ty('CacheChange')
    wi = ck.findex(wty, 'writer_attributes', alt='WriterAttributes')
    ei = ck.findex(wty, 'entity_attributes', alt='EntityAttributes')
    aty = ck.ty('WriterAttributes'); ety = ck.ty('EntityAttributes')
    li = ck.findex(aty, 'last_change_sequence_number', alt='SequenceNumber_t')
    hidden = extra_state(ck, wty) or extra_state(ck, aty)
    w = ck.sym(wty, 'writer')
    f = ck.fn('<StatelessWriter as Writer>::new_change')
    def writers():
        """(state, writer): an arbitrary one, or new ones when there is extra state"""
        if not hidden:
            yield State(), w
            return
        g = ck.fn('StatelessWriter::new')
        vals = []
        for i, t in enumerate(g['locals'][1:g['argc'] + 1]): vals.append(ck.sym(t, 'part%d' % i))
        for st, r in created(ck, g, vals):
            if extra_state(ck, aty): st.imprecise = 'extra state of the attributes'
            yield st, ip.get(st, r, ())
    def last(s, v): return ck.leaf(ck.fld(s, ck.fld(s, v, wty, 'writer_attributes', 'WriterAttributes'), aty, 'last_change_sequence_number', 'SequenceNumber_t'))
    def guid(s, v): return ck.fld(s, ck.fld(s, v, wty, 'entity_attributes', 'EntityAttributes'), ety, 'guid', 'GUID_t')
    TOP = K((1 << 63) - 1)
    def call(st, r, k):
        t = ck.p.T
        args = []
        for i, l in enumerate(f['locals'][2:f['argc'] + 1]): args.append(ck.sym(l, 'arg%d.%d' % (i, k)))
        return args, ck.run(f, [Ref(r)] + args, st, [f_lt(last(st, ip.get(st, r, ())), TOP)])
    names = [short(ck.p.T[l]['s']) for l in f['locals'][2:f['argc'] + 1]]
    def arg(args, tn):
        c = [a for a, n in zip(args, names) if n == tn]
        if len(c) != 1: raise Anchor('argument of type %s' % tn)
        return c[0]
    def post_of(r, args, before):
        def post(s, v):
            now = ip.get(s, r, ())
            old = last(s, before)
            at = ck.fld(s, now, wty, 'writer_attributes', 'WriterAttributes')
            at0 = ck.fld(s, before, wty, 'writer_attributes', 'WriterAttributes')
            return [(f_eq(ck.leaf(ck.fld(s, v, cty, 'sequence_number', 'SequenceNumber_t')), old + ONE), 'the number is not one above the previous one'),
                    (f_eq(last(s, now), old + ONE), 'the writer does not advance by one'),
                    (same(ck, s, ck.fld(s, v, cty, 'kind', 'ChangeKind_t'), arg(args, 'ChangeKind_t')), 'kind'),
                    (same(ck, s, ck.fld(s, v, cty, 'data_value', 'Data'), arg(args, 'Data')), 'data'),
                    (same(ck, s, ck.fld(s, v, cty, 'instance_handle', 'InstanceHandle_t'), arg(args, 'InstanceHandle_t')), 'instance'),
                    (same(ck, s, ck.fld(s, v, cty, 'writer_guid', 'GUID_t'), guid(s, before)), 'identity of the writer'),
                    (unchanged_but(ck, s, before, now, wty, [wi]), 'another part of the writer changes'),
                    (unchanged_but(ck, s, at0, at, aty, [li]), 'another attribute of the writer changes')]
        return post
    def once():
      for st, w in writers():
        st = st.copy()
        r = st.alloc(w)
        args, outs = call(st, r, 0)
        ck.prove('new change', outs, post_of(r, args, w), msg='new change')
        todo = [(o, 1) for o in outs]
        while todo:
            o, k = todo.pop()
            if o.kind != 'ret': continue
            mid = ip.get(o.st, r, ())
            args2, outs2 = call(o.st, r, k)
            ck.prove('second new change', outs2, post_of(r, args2, mid), msg='second new change')
            if hidden and k < 4: todo += [(x, k + 1) for x in outs2[:4]]
    ck.group('new change', once)
    def first_change():
        g = ck.fn('StatelessWriter::new')
        tys = g['locals'][1:g['argc'] + 1]
        vals = [ck.sym(t, 'part%d' % i) for i, t in enumerate(tys)]
        for o in ck.run(g, vals):
            def post(s, v):
                out = []
                for t, x in zip(tys, vals):
                    n = short(ck.p.T[t]['s'])
                    i = field_of_type(ck, wty, n)
                    out.append((same(ck, s, ip.step_in(s, ip.force(v), i), x), 'the %s of a new writer are not the given ones' % n))
                return out
            ck.prove('new writer', [o], post, msg='new writer')
            if o.kind != 'ret': continue
            s = o.st.copy()
            r = s.alloc(o.value)
            args, outs = call(s, r, 2)
            def post2(s, v):
                a = [x for t, x in zip(tys, vals) if short(ck.p.T[t]['s']) == 'WriterAttributes'][0]
                e = [x for t, x in zip(tys, vals) if short(ck.p.T[t]['s']) == 'EntityAttributes'][0]
                return [(f_eq(ck.leaf(ck.fld(s, v, cty, 'sequence_number', 'SequenceNumber_t')), ck.leaf(ck.fld(s, a, aty, 'last_change_sequence_number', 'SequenceNumber_t')) + ONE), 'the first number is not one above the configured one'),
                        (same(ck, s, ck.fld(s, v, cty, 'writer_guid', 'GUID_t'), ck.fld(s, e, ety, 'guid', 'GUID_t')), 'identity of the writer')]
            ck.prove('first change of a new writer', outs, post2, msg='first change of a new writer')
    ck.group('new writer', first_change)
    def identity():
        h = ck.fn('<StatelessWriter as Entity>::as_entity', optional=True)
        if h is None: return
        st, w = next(writers())
        st = st.copy()
        r = st.alloc(w)
        ck.prove('announced identity', ck.run(h, (Ref(r),), st), lambda s, v: [(same(ck, s, ck.fld(s, deref(ck, s, v), ety, 'guid', 'GUID_t'), guid(s, w)), 'differs from the one changes carry')], msg='identity of the writer')
    ck.group('identity', identity)

# ---------------------------------------------------------------- C20

def c20(ck):
    """Adding, removing and looking up readers is analysed for writers tracking each number of readers up to a bound, with arbitrary contents."""
    ip = ck.ip
    top = bound(ck, 2, 3)
    def setup(wty, fi, ety, n):
        st = State()
        xs, v = vec_of(ck, ety, 'reader', n)
        if extra_state(ck, wty):
            g = ck.fn(tname(ck, wty) + '::new')
            states = created(ck, g, [ck.sym(t, 'part%d' % i) for i, t in enumerate(g['locals'][1:g['argc'] + 1])]) if tname(ck, wty) == 'StatelessWriter' else []
            for x in xs: states = after(ck, states, ck.fn('StatelessWriter::reader_locator_add'), (x,))
            if len(states) == 1:
                st, r = states[0]
                return st, xs, ip.get(st, r, ()), r
            st.imprecise = 'extra state of a writer'
        w = struct_with(ck, wty, 'writer', {fi: v})
        return st, xs, w, st.alloc(w)
    def frame(s, wty, w, r, fi): return (unchanged_but(ck, s, w, ip.get(s, r, ()), wty, [fi]), 'another part of the writer changes')
    for wname, ename, add, rm in (('StatelessWriter', 'ReaderLocator', 'reader_locator_add', 'reader_locator_remove'), ('StatefulWriter', 'ReaderProxy', 'matched_reader_add', None)):
        def one():
            wty = ck.ty(wname); ety = ck.ty(ename)
            fi = field_of_type(ck, wty, 'Vec<%s>' % ename)
            x = ck.sym(ety, 'given')
            for n in range(top + 1):
                st, xs, w, r = setup(wty, fi, ety, n)
                def post(s, v):
                    return [(in_order(ck, s, items(ck, s, ip.get(s, r, (fi,))), xs + [x]), 'the readers are not the previous ones followed by the added one'), frame(s, wty, w, r, fi)]
                ck.prove('%s with %d readers' % (add, n), ck.run(ck.fn('%s::%s' % (wname, add)), (Ref(r), x), st), post, msg=add)
                if rm:
                    st, xs, w, r = setup(wty, fi, ety, n)
                    def post2(s, v):
                        want = [y for y in xs if not s.decide(same(ck, s, y, x))]
                        return [(in_order(ck, s, items(ck, s, ip.get(s, r, (fi,))), want), 'not exactly the equal readers are removed'), frame(s, wty, w, r, fi)]
                    ck.prove('%s with %d readers' % (rm, n), ck.run(ck.fn('%s::%s' % (wname, rm)), (Ref(r), x), st), post2, msg=rm)
        ck.group(add, one)
        def any_size():
            wty = ck.ty(wname); ety = ck.ty(ename)
            if extra_state(ck, wty): return
            fi = field_of_type(ck, wty, 'Vec<%s>' % ename)
            x = ck.sym(ety, 'given')
            st = State()
            v = ck.sym(ck.p.T[wty]['variants'][0]['fields'][fi][1], 'readers')
            n = ip.seq_len(ip.to_seq(v))
            w = struct_with(ck, wty, 'writer', {fi: v})
            r = st.alloc(w)
            def post(s, _):
                got = ip.to_seq(ip.get(s, r, (fi,)))
                m = ip.seq_len(got)
                out = [(f_eq(m, n + ONE), 'the number of readers does not grow by one')]
                if not s.facts.holds(out[0][0]): return out
                a, b = ip.seq_split(s, got, n)
                return out + [(seq_eq(ip, s, a, ip.to_seq(v)), 'the previous readers are not kept in order'),
                              (same(ck, s, ip.get(s, s.alloc(b), (('i', ZERO),)), x), 'the last reader is not the added one'), frame(s, wty, w, r, fi)]
            ck.prove('%s with any number of readers' % add, ck.run(ck.fn('%s::%s' % (wname, add)), (Ref(r), x), st), post, msg=add + ' with any number of readers')
            k = bound(ck, *LONG)
            ys = [ck.sym(ety, 'reader%d' % i) for i in range(k)]
            if rm:
                for at in (k - 1,):
                    # all but one equal to the given one
                    st = State()
                    r = st.alloc(struct_with(ck, wty, 'writer', {fi: SeqV((('E', tuple(ys[at] if i == at else x for i in range(k))),))}))
                    st.assume(f_not(same(ck, st, ys[at], x)))
                    ck.prove('%s of %d equal readers' % (rm, k - 1), ck.run(ck.fn('%s::%s' % (wname, rm)), (Ref(r), x), st),
                             lambda s, _: [(in_order(ck, s, items(ck, s, ip.get(s, r, (fi,))), [ys[at]]), 'not exactly the equal readers are removed')], msg=rm)
        ck.group(add + ' any size', any_size)
    def lookup():
        wty = ck.ty('StatefulWriter'); ety = ck.ty('ReaderProxy')
        fi = field_of_type(ck, wty, 'Vec<ReaderProxy>')
        f = ck.fn('StatefulWriter::matched_reader_lookup')
        g = ck.sym(ck.ty('GUID_t'), 'wanted')
        for n in range(bound(ck, 3, 4) + 1):
            st, xs, w, r = setup(wty, fi, ety, n)
            name = 'matched_reader_lookup with %d readers' % n
            for o in ck.run(f, (Ref(r), g), st):
                if o.kind != 'ret':
                    ck.prove(name, [o], lambda s, v: True); continue
                for o2, got in drain(ck, o.st, (o.value, f['locals'][0]), n + 1):
                    if got is None:
                        ck.prove(name, [o2], lambda s, v: True); continue
                    def post(s, v):
                        want = [y for y in xs if s.decide(same(ck, s, ck.fld(s, y, ety, 'remote_reader_guid', 'GUID_t'), g))]
                        return [(in_order(ck, s, [deref(ck, s, z) for z in got], want), 'not exactly the readers with that identity, in order of addition')]
                    ck.prove(name, [o2], post, msg='matched_reader_lookup')
        if extra_state(ck, wty): return
        n = bound(ck, *LONG)
        i = ck.findex(ety, 'remote_reader_guid', alt='GUID_t')
        xs = [struct_with(ck, ety, 'reader%d' % k, {i: g}) for k in range(n)]
        st = State()
        r = st.alloc(struct_with(ck, wty, 'writer', {fi: SeqV((('E', tuple(xs)),))}))
        name = 'matched_reader_lookup of %d readers' % n
        for o in ck.run(f, (Ref(r), g), st):
            if o.kind != 'ret':
                ck.prove(name, [o], lambda s, v: True); continue
            for o2, got in drain(ck, o.st, (o.value, f['locals'][0]), n + 1):
                if got is None: ck.prove(name, [o2], lambda s, v: True)
                else: ck.prove(name, [o2], lambda s, v: [(in_order(ck, s, [deref(ck, s, z) for z in got], xs), 'not exactly the readers with that identity, in order of addition')], msg='matched_reader_lookup')
    ck.group('matched_reader_lookup', lookup)
    def fresh():
        wty = ck.ty('StatelessWriter')
        fi = field_of_type(ck, wty, 'Vec<ReaderLocator>')
        g = ck.fn('StatelessWriter::new')
        vals = [ck.sym(t, 'part%d' % i) for i, t in enumerate(g['locals'][1:g['argc'] + 1])]
        ck.prove('new stateless writer', ck.run(g, vals), lambda s, v: [(not items(ck, s, ip.step_in(s, ip.force(v), fi)), 'a new writer already has readers')], msg='new writer')
    ck.group('new', fresh)
