"""Scripts for graphdrv: legal histories of one graph.  The little state kept here only decides what may be asked for next."""
UND = 'UVB'; MULTI = 'MXA'; ND = 'NEX'; ED = 'EX'
class G:
    def __init__(self, k, r, hi=8):
        self.k, self.r, self.hi = k, r, hi
        self.N = []; self.E = []; self.L = set(); self.mx = 0; self.mxe = 0; self.at = {}; self.out = ['new ' + k]
        self.fresh = 0
    def ends(self, s, d):
        if self.k in 'UV': return (min(s, d), max(s, d))
        if self.k == 'B': return (s, d) if s in self.L else (d, s)
        return (s, d)
    def has(self, s, d): p = self.ends(s, d); return any((x[0], x[1]) == p for x in self.E)
    def put(self, l): self.out.append(l)
    def _newn(self, id, left=True):
        n = self.mx if id == -1 else id
        self.mx = max(self.mx, n + 1); self.N.append(n)
        if left: self.L.add(n)
        return n
    def addnode(self, id=None):
        if id is None: id = self.r.choice([-1, -1] + [x for x in range(self.hi) if x not in self.N] + [1 << self.r.randint(4, 20)] * (self.r.random() < .1))
        if id != -1 and id in self.N: return
        if len(self.N) >= self.hi: return
        left = self.r.random() < .5; self._newn(id, left); self.put('addnode %d %d %d' % (id, self.r.randint(-3, 9), left))
    def pair(self):
        if self.k == 'B':
            A = [n for n in self.N if n in self.L]; B = [n for n in self.N if n not in self.L]
            if not A or not B: return None
            p = (self.r.choice(A), self.r.choice(B)); return p if self.r.random() < .7 else (p[1], p[0])
        return (self.r.choice(self.N), self.r.choice(self.N)) if self.N else None
    def addedge(self, p=None):
        p = p or self.pair()
        if not p: return
        s, d = p; e = -1
        if self.k in MULTI:
            if len(self.E) > 24: return
            if self.r.random() < .2: e = self.r.choice([x for x in range(40) if all(y[2] != x for y in self.E)])
            eid = self.mxe if e == -1 else e; self.mxe = max(self.mxe, eid + 1); self.E.append((s, d, eid))
        elif not self.has(s, d): self.E.append(self.ends(s, d) + (0,))
        self.put('addedge %d %d %d %d' % (s, d, e, self.r.randint(-3, 9)))
    def deledge(self):
        if not self.E: return
        if self.k in MULTI:
            x = self.r.choice(self.E)
            if self.r.random() < .5: self.put('deledgeid %d' % x[2]); self.E.remove(x); return
            dir = self.r.random() < .6; s, d = x[0], x[1]
            if not dir and self.r.random() < .5: s, d = d, s
            self.put('deledge %d %d %d' % (s, d, dir))
            if self.k == 'X': return 'unknown'
            self.E = [y for y in self.E if not ((y[0], y[1]) == (s, d) or (not dir and (y[1], y[0]) == (s, d)))]
            return
        p = self.r.choice(self.E)[:2] if self.r.random() < .8 else self.pair()
        if self.r.random() < .4: p = (p[1], p[0])
        dir = self.r.random() < .6; s, d = p
        self.put('deledge %d %d %d' % (s, d, dir))
        q = {self.ends(s, d)} | (set() if dir else {self.ends(d, s)})
        self.E = [y for y in self.E if (y[0], y[1]) not in q]
    def delnode(self, n=None):
        if not self.N: return
        n = self.r.choice(self.N) if n is None else n
        self.put('delnode %d' % n); self._drop({n})
    def _drop(self, S):
        self.N = [x for x in self.N if x not in S]; self.L -= S
        self.E = [y for y in self.E if y[0] not in S and y[1] not in S]
    def deg(self, n):
        o = sum(1 for y in self.E if y[0] == n); i = sum(1 for y in self.E if y[1] == n)
        if self.k in UND: u = sum(1 for y in self.E if n in y[:2]); return u, u, u
        return o + i, i, o
    def observe(self): self.put('dump'); self.put('pairs')
    def step(self):
        r = self.r; k = self.k
        c = r.choice(['n', 'n', 'e', 'e', 'e', 'e', 'e', 'd', 'd', 'dn', 'x', 'x', 'm', 'a'])
        if c == 'n': self.addnode()
        elif c == 'e': self.addedge()
        elif c == 'd':
            if self.deledge() == 'unknown': return 'unknown'
        elif c == 'dn': self.delnode()
        elif c == 'x': self.derived()
        elif c == 'm': self.bulk()
        elif c == 'a': self.attr()
        if r.random() < .35: self.put(r.choice(['dump', 'pairs', 'dump']))
    def some(self, lo=0): return self.r.sample(self.N, self.r.randint(min(lo, len(self.N)), len(self.N)))
    def derived(self):
        r = self.r; k = self.k
        if k == 'B': return
        o = ['sub', 'conv', 'csub', 'list', 'cnts']
        if k in MULTI: o += ['esub'] * 2
        else: o += ['psub'] * 2
        if k in 'UD': o += ['subr', 'ego', 'undir', 'ego']
        if k in ED: o += ['wsub'] * 2
        c = r.choice(o); v = self.some()
        sl = lambda v: '%d %s' % (len(v), ' '.join(map(str, v)))
        ren = 1 if r.random() < .4 and len(self.N) <= 5 else 0
        if c == 'sub': self.put('sub ' + sl(v + r.choice([[], [901]])))
        elif c == 'conv': self.put('conv %s %d' % (r.choice('UDM'), ren))
        elif c == 'csub':
            if v: self.put('csub %s %d %s' % (r.choice('UD'), ren, sl(v)))
        elif c == 'list': self.put('list %s' % r.choice('UD' if k not in 'UV' else 'U'))
        elif c == 'cnts': self.put('cnts %d %d %s' % (r.randint(0, 3), r.choice(self.N + [-1]), sl(self.some())))
        elif c == 'esub':
            e = r.sample([x[2] for x in self.E], r.randint(0, len(self.E))); self.put('esub ' + sl(e))
        elif c == 'psub':
            e = r.sample(self.E, r.randint(0, len(self.E))); self.put('psub %d %s' % (len(e), ' '.join('%d %d' % x[:2] for x in e)))
        elif c == 'subr': self.put('subr %s %d' % (sl(v), ren if len(v) <= 5 else 0))
        elif c == 'ego' and self.N: self.put('ego %d' % r.choice(self.N))
        elif c == 'undir' and k == 'D': self.put('undir')
        elif c == 'wsub': self.put('wsub %d %d' % (r.randint(-3, 9), r.choice([-1, 0, 1])))
    def bulk(self):
        r = self.r; k = self.k
        o = ['defrag 0', 'defrag 0', 'defrag 1', 'reserve %d %d' % (r.randint(0, 20), r.randint(0, 20)), 'save', 'rnd', 'delzero', 'delnodes', 'deldegk', 'clr']
        if not self.at: o += ['copy', 'assign']
        if k in 'UD': o += ['addnodeu', 'addedge2', 'addedges', 'sortadj'] * 2 + ['addnodev'] * 2 * (k == 'U')
        if k in ND: o += ['setnd', 'sort'] * 2
        if k in ED: o += ['seted', 'setalled'] * 2
        if k != 'B': o += ['delself'] * 2
        if k not in MULTI + 'B': o += ['addself']
        if k in 'DNEW': o += ['makeundir']
        c = r.choice(o)
        if c == 'clr':
            if r.random() < .7: return
            self.N = []; self.E = []; self.L = set(); self.mx = self.mxe = 0; self.at = {}; self.put(c)
        elif c == 'delzero': self.put(c); self._drop({n for n in self.N if self.deg(n)[0] == 0})
        elif c == 'delnodes': v = self.some()[:2]; self.put('delnodes %d %s' % (len(v), ' '.join(map(str, v)))); self._drop(set(v))
        elif c == 'deldegk': a, b = r.randint(2, 4), r.randint(2, 4); self.put('deldegk %d %d' % (a, b)); self._drop({n for n in self.N if self.deg(n)[2] == a or self.deg(n)[1] == b})
        elif c == 'delself': self.put(c); self.E = [y for y in self.E if y[0] != y[1]]
        elif c == 'addself':
            self.put(c); self.E += [(n, n, 0) for n in self.N if not self.has(n, n)]
        elif c == 'makeundir':
            self.put(c); self.E += [(d, s, 0) for s, d, _ in list(self.E) if not self.has(d, s)]
        elif c == 'addnodeu':
            n = r.randint(0, self.hi - 1)
            if n not in self.N: self._newn(n)
            self.put('addnodeu %d' % n)
        elif c == 'addedge2':
            s, d = r.randint(0, self.hi - 1), r.randint(0, self.hi - 1)
            for n in (s, d):
                if n not in self.N: self._newn(n)
            if not self.has(s, d): self.E.append(self.ends(s, d) + (0,))
            self.put('addedge2 %d %d' % (s, d))
        elif c == 'addedges':
            ps = []
            for _ in range(r.randint(0, 5)):
                p = self.pair()
                if p and not self.has(*p): self.E.append(self.ends(*p) + (0,)); ps.append(p)
            self.put('addedges %d %s' % (len(ps), ' '.join('%d %d' % p for p in ps)))
        elif c == 'addnodev':
            if len(self.N) >= self.hi: return
            a = self.some(); b = self.some() if k == 'D' else []
            n = self._newn(-1)
            self.E += [self.ends(n, x) + (0,) for x in a] + [(x, n, 0) for x in b]
            self.put('addnodev -1 %d %s %d %s' % (len(a), ' '.join(map(str, a)), len(b), ' '.join(map(str, b))))
        elif c == 'setnd':
            if self.N: self.put('setnd %d %d' % (r.choice(self.N), r.randint(-3, 9)))
        elif c == 'sort': self.put('defrag 0'); self.put('sort ' + r.choice(['id', 'idr', 'dat', 'datr']))
        elif c == 'seted':
            if self.E:
                x = r.choice(self.E); self.put('seted %d %d %d' % (x[0], x[1], r.randint(-3, 9)) if k == 'E' else 'setede %d %d' % (x[2], r.randint(-3, 9)))
        elif c == 'setalled': self.put('setalled %d' % r.randint(-3, 9))
        else: self.put(c)
    def attr(self):
        if self.k != 'A': return
        r = self.r
        for _ in range(r.choice([1, 1, 3])):
            on = r.choice('ne'); ids = self.N if on == 'n' else [x[2] for x in self.E]
            here = [a for a in self.at if a[0] == on]
            c = r.choice(['add'] * (1 if len(here) < 3 else 0) + ['set'] * 4 + ['deld', 'del'])
            if c == 'add':
                a = (on, on + r.choice('abcdef'))
                if a not in self.at: self.at[a] = r.randint(0, 3); self.put('addattr %s %s %d %d' % (on, a[1], self.at[a], r.randint(0, 5)))
            elif here and c == 'set' and ids:
                a = r.choice(here); n = r.randint(0, 3) if self.at[a] == 3 else 1
                self.put('setattr %s %s %d %d %s' % (on, a[1], r.choice(ids), n, ' '.join(str(r.randint(0, 99)) for _ in range(n))))
            elif here and c == 'deld' and ids: self.put('delattrdat %s %s %d' % (on, r.choice(here)[1], r.choice(ids)))
            elif here and c == 'del':
                if r.random() < .5: continue
                a = r.choice(here); del self.at[a]; self.put('delattr %s %s' % (on, a[1]))
def script(k, r, steps, hi=8):
    g = G(k, r, hi)
    for _ in range(r.randint(0, 5)): g.addnode()
    for _ in range(steps):
        if g.step() == 'unknown': break       # which of the parallel edges went is open: only observe from here
    g.observe(); g.put('rnd')
    return g.out
