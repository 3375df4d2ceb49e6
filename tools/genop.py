"""Random operator trees for C09."""
import json
class G:
    def __init__(s, r, opts):
        s.r, s.n, s.o = r, 0, opts
        s.dom = opts.get('dom', 6)
        s.db = sorted(set((r.randint(1, s.dom), r.randint(1, s.dom), r.randint(1, s.dom)) for _ in range(r.choice([0, 3, 8, 15, 30]))))
        s.preset = []; s.answers = []; s.domains = []; s.kinds = set()
    def reg(s): s.n += 1; return s.n - 1
    def regs(s, k): return [s.reg() for _ in range(k)]
    def cnt(s): return s.r.choice([1, 1, 1, 2, 3])
    def val(s): return s.r.randint(1, s.dom)
    def L(s, v): return '%d %s' % (len(v), ' '.join(map(str, v)))
    # every generator returns dict(t=tokens, j=json, out=regs, key=reg the rows are ordered by or None, null=set of regs that may be NULL, det=order fixed)
    def src(s, sortd=False):
        r = s.r; k = r.choice([1, 2, 2, 3]); regs = s.regs(k)
        m = r.choice([0, 1, 2, 3, 5, 8, 14])
        rows = [[s.val() for _ in range(k)] for _ in range(m)]
        if r.random() < .3 and rows: rows += [list(r.choice(rows)) for _ in range(3)]
        if sortd: rows.sort(key=lambda w: w[0] if r.random() < .5 else w[0]); rows.sort(key=lambda w: w[0])
        null = set()
        if not sortd and r.random() < .15 and k > 1:
            null.add(regs[-1])
            for w in rows:
                if r.random() < .3: w[-1] = -1
        rows = [w + [s.cnt()] for w in rows]
        return dict(t='src %s %d %s' % (s.L(regs), len(rows), ' '.join(' '.join(map(str, w)) for w in rows)), j=dict(k='src', regs=regs, rows=rows), out=regs, key=regs[0] if sortd else None, null=null, det=True)
    def scan(s, sortd=False, given=()):
        """given: registers that are set from outside, usable for bound positions"""
        r = s.r; o = r.randrange(6 if sortd else 12); aggr = r.choice([0, 0, 0, 1, 2])
        POS = [(0,1,2),(0,2,1),(2,1,0),(2,0,1),(1,0,2),(1,2,0)][o % 6 if o < 10 else 15 - o]
        use = POS[:3 - aggr]; reg = [-1] * 3; b = [False] * 3; out = []
        nb = r.choice([0, 0, 1, 1, 2, 3]) if not sortd else r.choice([0, 0, 1])
        bp = list(use)
        if sortd: bp = list(use[:1])
        r.shuffle(bp)
        bound = set(bp[:min(nb, len(use) - 1 if not (r.random() < .3 and not sortd) else len(use))])
        if sortd and len(bound) >= len(use): bound = set()
        g = list(given); r.shuffle(g)
        for p in use:
            if p in bound:
                b[p] = True
                if g: reg[p] = g.pop()
                else: reg[p] = s.reg(); s.preset.append((reg[p], s.val()))
            else: reg[p] = s.reg(); out.append(reg[p])
        t = 'scan %d %d %s' % (o, aggr, ' '.join('%d %d' % (reg[i], b[i]) for i in range(3)))
        return dict(t=t, j=dict(k='scan', ord=o, aggr=aggr, reg=reg, bound=b), out=out, key=out[0] if out else None, null=set(), det=True)
    def pick(s, n, nonnull=True):
        c = [x for x in n['out'] if not (nonnull and x in n['null'])]
        return s.r.choice(c) if c else None
    def sub(s, regs, keep=()):
        if s.r.random() < .6: return list(regs)
        return [x for x in regs if x in keep or s.r.random() < .7]
    def sorted_(s, d):
        r = s.r; k = r.choice(['src', 'src', 'scan', 'gb', 'mj', 'filter']) if d > 0 else r.choice(['src', 'scan'])
        if k == 'scan': return s.scan(True)
        if k == 'gb':
            c = s.any(d - 1); key = s.pick(c)
            if key is None: return s.src(True)
            return s.groupby(c, key)
        if k == 'mj':
            m = s.merge(d, False)
            if m: return m
        if k == 'filter': return s.filt(s.sorted_(d - 1))
        return s.src(True)
    def groupby(s, c, key=None):
        r = s.r; s.kinds.add('gb')
        cand = [x for x in c['out']]
        if not cand: return c
        by = [key] if key is not None else []
        for x in cand:
            if x != key and r.random() < .4: by.append(x)
        dist = r.random() < .5
        if not by and dist: by = [cand[0]]
        out = list(by) if dist else list(c['out'])
        bind = list(c['out'])
        return dict(t='gb %d %s %s %s' % (dist, s.L(bind), s.L(by), c['t']), j=dict(k='gb', distinct=dist, regs=bind, by=by, l=c['j']), out=out, key=by[0] if by else None, null=c['null'], det=False)
    def filt(s, c):
        r = s.r
        if not c['out']: return c
        s.kinds.add('filter')
        f = r.choice(c['out']); vals = [s.val() for _ in range(r.choice([0, 1, 1, 2, 3]))]
        if r.random() < .1: vals.append(r.choice([40, 64, 65, 1000]))
        ex = r.random() < .5
        d = dict(c); d['t'] = 'filter %d %d %s %s' % (f, ex, s.L(vals), c['t']); d['j'] = dict(k='filter', reg=f, vals=vals, ex=ex, l=c['j'])
        if not ex and f not in c['null'] and r.random() < .3: s.domains.append(f)
        return d
    def merge(s, d, optional=True):
        s.kinds.add('mj')
        l, r2 = s.sorted_(d - 1), s.sorted_(d - 1)
        if l['key'] is None or r2['key'] is None or l['key'] in l['null'] or r2['key'] in r2['null']: return None
        return s.join('mj', l, l['key'], r2, r2['key'], optional)
    def join(s, k, l, lk, r2, rk, optional=True):
        r = s.r; s.kinds.add(k)
        lo = ro = False
        if optional and r.random() < .45: lo, ro = r.choice([(False, True), (True, False), (True, True)] if s.o.get('full') else [(False, True), (True, False)])
        if lo or ro: s.kinds.add(k + 'opt')
        lt = [x for x in s.sub(l['out']) if x != lk]; rt = [x for x in s.sub(r2['out']) if x != rk]
        null = set(l['null']) | set(r2['null'])
        if ro: null |= set(rt) | {rk}
        if lo: null |= set(lt) | {lk}
        out = ([lk]) + lt + [rk] + rt
        t = '%s %d %d %d %s %d %s %s %s' % (k, lo, ro, lk, s.L(lt), rk, s.L(rt), l['t'], r2['t'])
        return dict(t=t, j=dict(k=k, lo=lo, ro=ro, lk=lk, lt=lt, rk=rk, rt=rt, l=l['j'], r=r2['j']), out=out, key=lk if k == 'mj' and not (lo or ro) else None, null=null, det=False)
    def any(s, d):
        r = s.r
        ks = ['src', 'scan'] if d <= 0 else s.o.get('kinds') or ['src', 'scan', 'nlj', 'mj', 'mj', 'hj', 'hj', 'cp', 'union', 'mu', 'minus', 'filter', 'nlf', 'hg', 'gb', 'limit', 'assign', 'values', 'single', 'empty', 'tf']
        k = r.choice(ks); s.kinds.add(k)
        if k == 'src': return s.src()
        if k == 'scan': return s.scan()
        if k == 'values':
            g = s.regs(r.choice([1, 2, 3])); v = [s.val() for _ in range(len(g) * r.choice([0, 1, 2, 4]))]
            if r.random() < .2 and v: v[r.randrange(len(v))] = -1
            return dict(t='values %s %s' % (s.L(g), s.L(v)), j=dict(k='values', regs=g, vals=v), out=g, key=None, null=set(g) if -1 in v else set(), det=True)
        if k == 'single': return dict(t='single', j=dict(k='single'), out=[], key=None, null=set(), det=True)
        if k == 'empty': return dict(t='empty', j=dict(k='empty'), out=[], key=None, null=set(), det=True)
        if k == 'mj':
            m = s.merge(d)
            return m or s.src()
        if k == 'hj':
            l, q = s.any(d - 1), s.any(d - 1); lk, rk = s.pick(l), s.pick(q)
            if lk is None or rk is None: return l
            return s.join('hj', l, lk, q, rk)
        if k == 'nlj':
            l = s.any(d - 1); given = [x for x in l['out'] if x not in l['null']]
            q = s.scan(given=given) if r.random() < .7 else s.any(d - 1)
            return dict(t='nlj %s %s' % (l['t'], q['t']), j=dict(k='nlj', l=l['j'], r=q['j']), out=l['out'] + q['out'], key=l['key'], null=l['null'] | q['null'], det=l['det'] and q['det'])
        if k == 'cp':
            l, q = s.any(d - 1), s.any(d - 1); lo = r.random() < .2; ro = r.random() < .2
            lt, rt = list(l['out']), s.sub(q['out'])
            return dict(t='cp %d %d %s %s %s %s' % (lo, ro, s.L(lt), s.L(rt), l['t'], q['t']), j=dict(k='cp', lo=lo, ro=ro, lt=lt, rt=rt, l=l['j'], r=q['j']), out=lt + rt, key=l['key'] if not lo else None, null=l['null'] | q['null'] | (set(lt) if lo else set()) | (set(rt) if ro else set()), det=l['det'] and q['det'])
        if k == 'union':
            m = r.choice([1, 2, 2, 3]); w = r.choice([1, 2, 2]); res = s.regs(w); t = 'union %d' % m; parts = []; null = set(); det = True
            for i in range(m):
                c = s.any(d - 1); mp = []; init = []
                src = list(c['out']); r.shuffle(src)
                for x in res:
                    if src and r.random() < .85:
                        y = src.pop(); mp.append([y, x])
                        if y in c['null']: null.add(x)
                    else: init.append(x); null.add(x)
                t += ' %d %s %s %s' % (2 * len(mp), ' '.join('%d %d' % (a, b) for a, b in mp), s.L(init), c['t']); parts.append(dict(l=c['j'], map=mp, init=init)); det = det and c['det']
            return dict(t=t, j=dict(k='union', parts=parts), out=res, key=None, null=null, det=det)
        if k == 'mu':
            l, q = s.sorted_(d - 1), s.sorted_(d - 1)
            if l['key'] is None or q['key'] is None or l['key'] in l['null'] or q['key'] in q['null']: return l
            res = s.reg()
            return dict(t='mu %d %d %d %s %s' % (res, l['key'], q['key'], l['t'], q['t']), j=dict(k='mu', res=res, a=l['key'], b=q['key'], l=l['j'], r=q['j']), out=[res], key=res, null=set(), det=False)
        if k == 'minus':
            l, q = s.any(d - 1), s.any(d - 1)
            m = min(len(l['out']), len(q['out']), r.choice([1, 1, 2]))
            if m == 0: return l
            pr = list(zip(r.sample(l['out'], m), r.sample(q['out'], m)))
            return dict(t='minus %d %s %s %s' % (m, ' '.join('%d %d' % p for p in pr), l['t'], q['t']), j=dict(k='minus', pairs=[list(p) for p in pr], l=l['j'], r=q['j']), out=l['out'], key=l['key'], null=l['null'], det=l['det'])
        if k == 'filter': return s.filt(s.any(d - 1))
        if k == 'nlf':
            f = s.reg(); c = s.scan(given=[f]) if r.random() < .7 else s.any(d - 1)
            vals = r.sample(range(1, s.dom + 3), r.choice([0, 1, 2, 3]))
            return dict(t='nlf %d %s %s' % (f, s.L(vals), c['t']), j=dict(k='nlf', reg=f, vals=vals, l=c['j']), out=c['out'] + [f], key=None, null=c['null'], det=c['det'])
        if k == 'hg':
            c = s.any(d - 1); g = [x for x in c['out'] if r.random() < .6]
            return dict(t='hg %s %s' % (s.L(g), c['t']), j=dict(k='hg', regs=g, l=c['j']), out=g, key=None, null=c['null'], det=False)
        if k == 'gb': return s.groupby(s.any(d - 1))
        if k == 'assign':
            c = s.any(d - 1); m = r.choice([1, 2]); st = []; null = set(c['null'])
            for _ in range(m):
                x = s.reg(); y = r.choice(c['out']) if c['out'] and r.random() < .7 else -1; v = s.val()
                st.append([x, y, v])
                if y in c['null']: null.add(x)
            return dict(t='assign %d %s %s' % (m, ' '.join('%d %d %d' % tuple(x) for x in st), c['t']), j=dict(k='assign', set=st, l=c['j']), out=c['out'] + [x[0] for x in st], key=c['key'], null=null, det=c['det'])
        if k == 'limit':
            for _ in range(6):
                c = s.any(d - 1)
                if c['det']: break
            if not c['det']: return c
            return s.limit(c, False)
        if k == 'tf':
            c = s.any(d - 1); na = r.choice([0, 1, 1, 2]); args = [s.pick(c) for _ in range(na)]
            if None in args: return c
            out = s.regs(r.choice([1, 2])); tab = []; name = 'f%d' % s.n
            extra = 'c%d' % s.n if r.random() < .3 else None
            ins = [[]]
            for a in args: ins = [i + [v] for i in ins for v in range(1, s.dom + 1)]
            for i in ins:
                if r.random() < .25: continue
                rows = [[s.val() if r.random() < .9 else -1 for _ in out] for _ in range(r.choice([0, 1, 1, 2, 3]))]
                tab.append({'in': i, 'rows': rows})
                key = ' '.join([name, str(len(out))] + ['<i%d>' % v for v in i] + ([extra] if extra else []))
                for w in rows: s.answers.append((key, ' '.join('<i%d>' % v if v >= 0 else 'NULL' for v in w)))
            t = 'tf %s %d %s %s %s' % (name, na + (1 if extra else 0), ' '.join(map(str, args)) + (' -1 ' + extra if extra else ''), s.L(out), c['t'])
            return dict(t=t, j=dict(k='tf', args=args, regs=out, tab=tab, l=c['j']), out=c['out'] + out, key=None, null=c['null'] | set(out), det=c['det'])
        raise Exception(k)
    def limit(s, c, open_):
        r = s.r; nd = r.random() < .4; lim = r.choice([-1, 0, 1, 2, 3, 5, 10]); off = r.choice([0, 0, 1, 2, 3, 7])
        return dict(t='limit %d %d %d %s' % (nd, lim, off, c['t']), j=dict(k='limit', nodup=nd, lim=lim, off=off, open=open_, l=c['j']), out=c['out'], key=c['key'] if not open_ else None, null=c['null'], det=True)
def size(n, db):
    """an upper estimate of the rows and of the work"""
    k = n['k']
    if k == 'src': return len(n['rows'])
    if k == 'scan': return db + 1
    if k in ('nlj', 'cp'): return (size(n['l'], db) + 1) * (size(n['r'], db) + 1)
    if k in ('mj', 'hj'): a, b = size(n['l'], db), size(n['r'], db); return a * b // 3 + a + b
    if k == 'union': return sum(size(p['l'], db) for p in n['parts'])
    if k == 'mu': return size(n['l'], db) + size(n['r'], db)
    if k == 'minus': return size(n['l'], db) + size(n['r'], db)
    if k == 'nlf': return (len(n['vals']) + 1) * size(n['l'], db)
    if k == 'tf': return 2 * size(n['l'], db)
    return size(n['l'], db) if 'l' in n else len(n.get('vals', [])) + 1
def scenario(r, opts):
    while True:
        g = G(r, opts)
        n = g.any(opts.get('depth', 3))
        if size(n['j'], len(g.db)) <= opts.get('size', 600): break
    if n['det'] is False and r.random() < .1:
        n = g.limit(n, True); n['j']['nodup'] = False; n['t'] = 'limit 0 ' + n['t'].split(' ', 2)[2]
    elif n['det'] and r.random() < .1: n = g.limit(n, False)
    vis = list(dict.fromkeys(n['out']))
    L = ['hint %d' % r.choice([0, 0, 1, 2])] if opts.get('hints', True) else []
    if r.random() < .1: L.append('noskip')
    L += ['db ' + ' '.join('%d %d %d' % t for t in g.db), 'regs %d 20' % max(1, g.n)]
    if opts.get('domains', True) and g.domains: L.append('dom ' + ' '.join('%d %d' % (x, i) for i, x in enumerate(dict.fromkeys(g.domains[:15]))))
    if g.preset: L.append('preset ' + ' '.join('%d %d' % p for p in g.preset))
    for k, a in g.answers: L.append('answer %s => %s' % (k, a))
    L.append('vis ' + ' '.join(map(str, vis)))
    L.append('tree %s ### %s' % (n['t'], json.dumps(n['j'], separators=(',', ':'))))
    seq = ['run', 'run'] if r.random() < .5 else ['run', 'run %d' % r.choice([1, 2, 4]), 'run']
    if opts.get('once'): seq = ['run']
    return L + seq + ['free'], g.kinds
def domain_scenario(r):
    L = []
    for _ in range(4):
        hi = r.choice([50, 300, 9000, 20000, 1000000]); base = [r.randint(0, hi) for _ in range(r.choice([1, 3, 10]))]
        sets = [[x for x in base if r.random() < .8] + [r.randint(0, hi) for _ in range(r.choice([0, 1, 5]))] or [1] for _ in range(r.choice([1, 2, 3]))]
        pr = [r.randint(0, hi) for _ in range(6)] + r.sample(base, min(3, len(base))) + [max(0, b - 1) for b in base[:3]] + [b + 1 for b in base[:2]] + [b + 8192 for b in base[:2]] + [0]
        L.append('ddomain %d %s %s' % (len(sets), ' '.join('%d %s' % (len(s), ' '.join(map(str, s))) for s in sets), ' '.join(map(str, pr))))
    return L
def wide_scenario(r):
    """one hash join or hash grouping over many distinct keys"""
    n = r.choice([60, 120, 250]); base = r.choice([1, 1000, 1024 * 7]); step = r.choice([1, 8, 1024, 2048, 1024 * 9])
    keys = [base + step * i for i in range(n)]
    def rows(frac, w):
        q = [k for k in keys if r.random() < frac]; q += [r.choice(keys) for _ in range(n // 6)]; r.shuffle(q)
        return [[k] + [r.randint(1, 3) for _ in range(w)] + [r.choice([1, 1, 2])] for k in q]
    def src(regs, rs): return 'src %d %s %d %s' % (len(regs), ' '.join(map(str, regs)), len(rs), ' '.join(' '.join(map(str, w)) for w in rs)), dict(k='src', regs=regs, rows=rs)
    if r.random() < .7:
        lo, ro = r.choice([(0, 0), (0, 0), (1, 0), (0, 1), (1, 1)])
        (lt, lj), (rt, rj) = src([0, 1], rows(.7, 1)), src([2], [w for w in rows(.5, 0)])
        t = 'hj %d %d 0 1 1 2 0  %s %s' % (lo, ro, lt, rt); j = dict(k='hj', lo=bool(lo), ro=bool(ro), lk=0, lt=[1], rk=2, rt=[], l=lj, r=rj); vis = [0, 1, 2]
    else:
        (lt, lj) = src([0, 1], rows(.8, 1)); vis = r.choice([[0, 1], [1, 0], [0]])
        t = 'hg %d %s %s' % (len(vis), ' '.join(map(str, vis)), lt); j = dict(k='hg', regs=vis, l=lj)
    return ['hint 0', 'db ', 'regs 3 20', 'vis ' + ' '.join(map(str, vis)), 'tree %s ### %s' % (t, json.dumps(j, separators=(',', ':'))), 'run', 'run', 'free']
def tdict_scenario(r):
    L = []
    for _ in range(3):
        pool = ['i%d' % r.randint(1, 40) for _ in range(3)] + r.sample(['a', 'b', 'ab', 'A', '~', 'x:y', 'i', 'http://e/1', 'http://e/12'], 5)
        q = [(r.choice(pool), r.randint(0, 8), r.choice([0, 0, 1, 7])) for _ in range(r.choice([1, 4, 12]))]
        q += [r.choice(q) for _ in range(4)]
        L.append('tdict ' + ' '.join('%s %d %d' % x for x in q))
    return L
