import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'tools'))
import vrun, vbuild, genkb
R = vbuild.REPO
def raw(r):
    """the cache alone: some keys, each stored several times with blocks that do not overlap"""
    L = []; keys = r.sample([0, 1, 2, 7, 255, 256, 1 << 20, (1 << 31) - 1], r.choice([1, 2, 3, 5])); used = {k: [] for k in keys}
    unknown = [k for k in [3, 99, 1 << 21] if k not in keys]
    for _ in range(r.choice([1, 3, 6, 12])):
        k = r.choice(keys); bl = []; ps = []
        for _ in range(r.choice([1, 1, 2, 4])):
            s = r.randint(0, 60); e = s + r.choice([0, 0, 1, 3])
            if any(not (e < x or s > y) for x, y in used[k]): continue
            used[k].append((s, e)); rows = [(c, v) for c in range(s, e + 1) for v in sorted(r.sample(range(50), r.choice([1, 1, 2, 5])))]
            if r.random() < .2: ps += [(90, 0)] * r.randint(1, 2)
            bl.append((s, e, len(ps), len(ps) + len(rows))); ps += rows
        if not bl: continue
        bl.sort()
        L.append('store %d %d %s %d %s' % (k, len(bl), ' '.join('%d %d %d %d' % b for b in bl), len(ps), ' '.join('%d %d' % p for p in ps)))
        L.append('get %d' % r.choice(keys + unknown))
        if r.random() < .3: L.append('get %d' % k)
    return L + ['get %d' % k for k in keys + unknown]
def readers(r, hs):
    """TLC's reading histories over one store, with two keys, one or two readers at a time"""
    base = hs[0]; db = [tuple(x) for x in base[0]['t']]; K = [7, 8]; second = r.random() < .5
    if len(hs) > 1 and second: pass
    T = set((a, 7, b + (0 if second else 9)) for a, b in db)
    other = [tuple(x) for x in hs[1][0]['t']]
    T |= set((a, 8, b + 9) for a, b in other)
    nt = 12
    L = genkb.tlines(sorted(T)) + ['load ' + genkb.opt({'nt': nt, 'big': r.choice([0, 0, 1]), 'nind': 6, 'aggr': r.choice([0, 1]), 'skip': r.choice([0, 1]), 'thr': 2}), 'open']
    act = {}
    def step(it, key, h):
        o = [x[1] for x in sorted(T) if 0]
        for e in h[1:]:
            if it not in act: L.append('cnew %d %d' % (it, key)); act[it] = key
            if e['op'] == 'goto': L.append('cgoto %d %d %d %d' % (it, e['a'], r.choice([-1, -1, -1, r.randint(0, 11)]), r.choice([0, 1, 9, 9])))
            else: L.append('cclear %d' % it); act.pop(it); L.append('cpeek %d' % key)
            yield
    a = step(0, 7, hs[0]); b = step(1, r.choice([7, 8]), hs[1])
    live = [a, b]
    while live:
        g = r.choice(live)
        try: next(g)
        except StopIteration: live.remove(g)
    for it in list(act): L.append('cclear %d' % it)
    return L + ['cpeek 7', 'cpeek 8', 'cpeek 9'] if 'cnew' in ' '.join(L) else L
def fn(c):
    b = vbuild.build('cidxdrv', vbuild.VERIF + '/drivers/cidxdrv.cpp', [], extra=[R + '/src/trident/kb/cacheidx.cpp'])
    kb = vbuild.build('kbdrv', vbuild.VERIF + '/drivers/kbdrv.cpp', ['core'])
    c.model('MCCache')
    m = 10 if c.thorough else 1; r = c.rng('raw')
    c.bind('index', b, [('x%d' % i, raw(r)) for i in range(1500 * m)], 'TraceCache.tla')
    bh = c.behaviours('MCCache', 'GenCache.cfg', num=260 * m, depth=17)
    r = c.rng('rd'); r.shuffle(bh)
    c.bind('readers', kb, [('r%d' % i, readers(r, bh[2 * i:2 * i + 2])) for i in range(len(bh) // 2)], 'TraceCache.tla')
    c.assumptions += ['TLC and the JSON bridge', 'blocks stored for one key do not overlap, as the code asks for', 'a reader is cleared once, when it is done', 'shim/ stands in for the KOGNAC library']
vrun.main('C07', fn)
