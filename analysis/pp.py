"""Prints functions of a dump in a readable form: pp.py DUMP substring-of-name..."""
import json, sys

def load(p):
    return json.load(open(p))

class PP:
    def __init__(self, d):
        self.d = d
        self.T = {t['id']: t for t in d['types']}
        self.F = {f['id']: f for f in d['fns']}
    def place(self, p):
        s = '_%d' % p[0]
        for e in p[1:]:
            if e == '*': s = '(*%s)' % s
            elif e[0] == 'f': s += '.%d' % e[1]
            elif e[0] == 'i': s += '[_%d]' % e[1]
            elif e[0] == 'd': s += '@%d' % e[1]
            else: s += str(e)
        return s
    def op(self, o):
        if o[0] == 'cp': return self.place(o[1])
        if o[0] == 'mv': return 'move ' + self.place(o[1])
        if o[0] == 'k':
            t = self.T[o[1]]
            if t['k'] == 'fndef':
                fi = t.get('fn'); fi = fi[1] if isinstance(fi, list) else fi; f = self.F.get(fi)
                return 'fn#%s %s' % (fi, f['name'] if f else t['s'])
            return '%s: %s' % (json.dumps(o[2]), t['s'][:60])
        return json.dumps(o)
    def rv(self, r):
        k = r[0]
        if k in ('use',): return self.op(r[1])
        if k == 'ref': return '&%s %s' % (r[1], self.place(r[2]) if isinstance(r[2], list) else r[2:])
        def conv(x):
            if isinstance(x, list) and x and x[0] in ('cp', 'mv', 'k', 'rc'): return self.op(x)
            if isinstance(x, list) and x and isinstance(x[0], int) and k in ('addr', 'discr', 'len'): return self.place(x)
            if isinstance(x, list): return '[' + ', '.join(str(conv(y)) for y in x) + ']'
            return str(x)
        if k == 'cast': return 'cast %s %s as %s' % (r[1], self.op(r[2]), self.T[r[3]]['s'])
        return k + ' ' + ' '.join(str(conv(x)) for x in r[1:])
    def fn(self, f):
        print('FN', f['id'], f['name'], 'argc', f.get('argc'), 'spread', f.get('spread'))
        if 'blocks' not in f: print('   (no blocks)', {k: f[k] for k in f if k not in ('name',)}); return
        for i, t in enumerate(f['locals']): print('   _%d: %s' % (i, self.T[t]['s'] if t is not None else None))
        for i, b in enumerate(f['blocks']):
            print('  bb%d:' % i)
            for s in b['s']:
                if s[0] == '=': print('    %s = %s' % (self.place(s[1]), self.rv(s[2])))
                else: print('    ', s)
            t = b['t']
            if t[0] == 'call':
                print('    %s = call %s(%s) -> %s' % (self.place(t[3]), self.op(t[1]), ', '.join(self.op(a) for a in t[2]), t[4]))
            elif t[0] == 'switch':
                print('    switch %s %s else %s' % (self.op(t[1]), t[2], t[3]))
            else: print('    ', json.dumps(t))

if __name__ == '__main__':
    d = load(sys.argv[1]); p = PP(d)
    for f in d['fns']:
        if any(a in f['name'] or a == '#%d' % f['id'] for a in sys.argv[2:]): p.fn(f)
